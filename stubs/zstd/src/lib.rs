//! Stand-in for the C library: lossless, without compression.
pub mod stream {
    use std::io::{copy, Read, Result, Write};
    pub fn copy_encode<R: Read, W: Write>(mut r: R, mut w: W, _level: i32) -> Result<()> { copy(&mut r, &mut w).map(|_| ()) }
    pub fn copy_decode<R: Read, W: Write>(mut r: R, mut w: W) -> Result<()> { copy(&mut r, &mut w).map(|_| ()) }
}
