//! Stand-in for the compressor (its own code is out of scope): lossless, without compression.
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { BufferTooSmall { given: u64, min: u64 }, Corrupt }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("snap") } }
impl std::error::Error for Error {}
pub mod raw {
    use super::{Error, Result};
    pub fn max_compress_len(n: usize) -> usize { if n as u64 > u32::MAX as u64 { 0 } else { 32 + n + n / 6 } }
    pub fn decompress_len(input: &[u8]) -> Result<usize> { if input.is_empty() { return Ok(0) } if input[0] != 0xa5 { return Err(Error::Corrupt) } Ok(input.len() - 1) }
    #[derive(Default, Clone, Debug)]
    pub struct Encoder;
    impl Encoder {
        pub fn new() -> Self { Encoder }
        pub fn compress(&mut self, input: &[u8], output: &mut [u8]) -> Result<usize> {
            let min = max_compress_len(input.len());
            if min == 0 || output.len() < min { return Err(Error::BufferTooSmall { given: output.len() as u64, min: min as u64 }); }
            output[0] = 0xa5;
            output[1..=input.len()].copy_from_slice(input);
            Ok(input.len() + 1)
        }
        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> { let mut v = vec![0; max_compress_len(input.len())]; let n = self.compress(input, &mut v)?; v.truncate(n); Ok(v) }
    }
    #[derive(Default, Clone, Debug)]
    pub struct Decoder;
    impl Decoder {
        pub fn new() -> Self { Decoder }
        pub fn decompress(&mut self, input: &[u8], output: &mut [u8]) -> Result<usize> {
            let n = decompress_len(input)?;
            if input.is_empty() { return Err(Error::Corrupt); }
            if output.len() < n { return Err(Error::BufferTooSmall { given: output.len() as u64, min: n as u64 }); }
            output[..n].copy_from_slice(&input[1..]);
            Ok(n)
        }
        pub fn decompress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> { let mut v = vec![0; decompress_len(input)?]; let n = self.decompress(input, &mut v)?; v.truncate(n); Ok(v) }
    }
}
