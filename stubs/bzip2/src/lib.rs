//! Stand-in for the compressor that cannot be fetched here: lossless, without compression.
#[derive(Clone, Copy, Default)]
pub struct Compression;
pub mod write {
    use std::io::{Result, Write};
    pub struct BzEncoder<W: Write>(W);
    impl<W: Write> BzEncoder<W> { pub fn new(w: W, _: super::Compression) -> Self { Self(w) } pub fn finish(self) -> Result<W> { Ok(self.0) } }
    impl<W: Write> Write for BzEncoder<W> { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) } fn flush(&mut self) -> Result<()> { self.0.flush() } }
    pub struct BzDecoder<W: Write>(W);
    impl<W: Write> BzDecoder<W> { pub fn new(w: W) -> Self { Self(w) } pub fn finish(&mut self) -> Result<W> where W: Default { Ok(std::mem::take(&mut self.0)) } }
    impl<W: Write> Write for BzDecoder<W> { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) } fn flush(&mut self) -> Result<()> { self.0.flush() } }
}
