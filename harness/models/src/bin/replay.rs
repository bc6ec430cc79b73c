fn main() { sx::replay_main(&[h_models::time::TABLE, h_models::pred::TABLE].concat()) }
