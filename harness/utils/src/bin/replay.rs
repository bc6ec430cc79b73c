fn main() {
    sx::replay_main(h_utils::TABLE)
}
