fn main() {
    sx::replay_main(h_limiter::TABLE)
}
