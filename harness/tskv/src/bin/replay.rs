fn main() { sx::replay_main(&[h_tskv::codec::TABLE, h_tskv::record::TABLE, h_tskv::mem::TABLE, h_tskv::vnode::TABLE, h_tskv::files::TABLE, h_tskv::compact::TABLE, h_tskv::tomb::TABLE, h_tskv::merge::TABLE, h_tskv::read::TABLE].concat()) }
