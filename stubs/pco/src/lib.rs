//! Stand-in for the compressor that cannot be fetched here: lossless, without compression.
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod standalone {
    pub trait Number: Copy { fn put(self) -> [u8; 8]; fn get(b: [u8; 8]) -> Self; }
    impl Number for i64 { fn put(self) -> [u8; 8] { self.to_le_bytes() } fn get(b: [u8; 8]) -> Self { i64::from_le_bytes(b) } }
    impl Number for u64 { fn put(self) -> [u8; 8] { self.to_le_bytes() } fn get(b: [u8; 8]) -> Self { u64::from_le_bytes(b) } }
    impl Number for f64 { fn put(self) -> [u8; 8] { self.to_bits().to_le_bytes() } fn get(b: [u8; 8]) -> Self { f64::from_bits(u64::from_le_bytes(b)) } }
    pub fn simpler_compress<T: Number>(src: &[T], _level: usize) -> Result<Vec<u8>, std::io::Error> {
        Ok(src.iter().flat_map(|v| v.put()).collect())
    }
    pub fn simple_decompress<T: Number>(src: &[u8]) -> Result<Vec<T>, std::io::Error> {
        if src.len() % 8 != 0 { return Err(std::io::ErrorKind::InvalidData.into()); }
        Ok(src.chunks_exact(8).map(|c| T::get(c.try_into().unwrap())).collect())
    }
}
