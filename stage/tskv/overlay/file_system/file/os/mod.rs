//! File descriptors of the in-memory disk. Every buffer is valid: the callers hold it.
use std::io::Result;
pub fn fd(f: &sxfs::File) -> usize { f.id() }
pub fn pread(fd: usize, pos: usize, len: usize, ptr: u64) -> Result<usize> { Ok(sxfs::File::of(fd).read_at(pos, unsafe { std::slice::from_raw_parts_mut(ptr as *mut u8, len) })) }
pub fn pwrite(fd: usize, pos: usize, len: usize, ptr: u64) -> Result<usize> { Ok(sxfs::File::of(fd).write_at(pos, unsafe { std::slice::from_raw_parts(ptr as *const u8, len) })) }
pub fn file_size(fd: usize) -> Result<usize> { Ok(sxfs::File::of(fd).size()) }
