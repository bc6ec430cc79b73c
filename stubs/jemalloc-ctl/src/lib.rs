//! Signature-only stand-in for the jemalloc control interface.
pub mod raw {
    pub unsafe fn write<T>(_: &[u8], _: T) -> Result<(), String> {
        Err("unsupported".into())
    }
    pub unsafe fn read<T: Copy>(_: &[u8]) -> Result<T, String> {
        Err("unsupported".into())
    }
}
