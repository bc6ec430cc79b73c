//! one level of an in-memory directory
use std::path::{Path, PathBuf};
pub struct WalkDir(PathBuf);
pub struct FileType(bool);
impl FileType { pub fn is_dir(&self) -> bool { self.0 } pub fn is_file(&self) -> bool { !self.0 } }
pub struct DirEntry { name: std::ffi::OsString, dir: bool, path: PathBuf }
impl DirEntry {
    pub fn file_type(&self) -> FileType { FileType(self.dir) }
    pub fn file_name(&self) -> &std::ffi::OsStr { &self.name }
    pub fn path(&self) -> &Path { &self.path }
}
#[derive(Debug)]
pub struct Error;
impl WalkDir {
    pub fn new(p: impl AsRef<Path>) -> Self { WalkDir(p.as_ref().to_path_buf()) }
    pub fn min_depth(self, _: usize) -> Self { self }
    pub fn max_depth(self, _: usize) -> Self { self }
    pub fn sort_by_file_name(self) -> Self { self }
}
impl IntoIterator for WalkDir {
    type Item = Result<DirEntry, Error>;
    type IntoIter = std::vec::IntoIter<Result<DirEntry, Error>>;
    fn into_iter(self) -> Self::IntoIter { sxfs::list(&self.0).into_iter().map(|(n, dir)| Ok(DirEntry { path: self.0.join(&n), name: n.into(), dir })).collect::<Vec<_>>().into_iter() }
}
