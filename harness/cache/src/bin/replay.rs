fn main() {
    sx::replay_main(h_cache::TABLE)
}
