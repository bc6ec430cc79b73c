//! Stand-in for the compressor (its DEFLATE code is out of scope): lossless, without compression.
#[derive(Clone, Copy, Default)]
pub struct Compression;
impl Compression { pub fn fast() -> Self { Compression } pub fn best() -> Self { Compression } pub fn new(_: u32) -> Self { Compression } }
pub mod write {
    use std::io::{Result, Write};
    macro_rules! pair { ($e:ident, $d:ident) => {
        pub struct $e<W: Write>(W);
        impl<W: Write> $e<W> { pub fn new(w: W, _: super::Compression) -> Self { Self(w) } pub fn finish(self) -> Result<W> { Ok(self.0) } }
        impl<W: Write> Write for $e<W> { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) } fn flush(&mut self) -> Result<()> { self.0.flush() } }
        pub struct $d<W: Write>(W);
        impl<W: Write> $d<W> { pub fn new(w: W) -> Self { Self(w) } pub fn finish(self) -> Result<W> { Ok(self.0) } }
        impl<W: Write> Write for $d<W> { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) } fn flush(&mut self) -> Result<()> { self.0.flush() } }
    } }
    pair!(GzEncoder, GzDecoder);
    pair!(ZlibEncoder, ZlibDecoder);
}
