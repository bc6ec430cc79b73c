//! A mapped file is a file that is read in place.
use std::io::Result;
use std::path::Path;
use crate::file_system::file::ReadableFile;
pub struct MmapFile { file: sxfs::File, size: usize }
impl MmapFile {
    pub async fn open<P: AsRef<Path>>(path: P, options: sxfs::OpenOptions) -> Result<MmapFile> {
        let file = options.open(path)?;
        let size = file.size();
        Ok(MmapFile { file, size })
    }
}
#[async_trait::async_trait]
impl ReadableFile for MmapFile {
    async fn read_at(&self, pos: usize, data: &mut [u8]) -> Result<usize> {
        // the real file copies from the mapping without a check
        assert!(pos <= self.size && data.len() <= self.size - pos, "reading behind the end of a mapped file");
        Ok(self.file.read_at(pos, data))
    }
    fn file_size(&self) -> usize { self.size }
}
