//! An in-memory disk with the part of std::fs that the storage engine uses. Files keep what was written to them,
//! and which part of that was synced.
use std::io::{Error, ErrorKind, Result};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
#[derive(Debug, Default)]
pub struct Inode { pub data: Vec<u8>, pub synced: Vec<u8> }
#[derive(Default)]
struct Disk { files: Vec<(PathBuf, Arc<Mutex<Inode>>)>, dirs: Vec<PathBuf>, open: Vec<Arc<Mutex<Inode>>> }
static DISK: Mutex<Disk> = Mutex::new(Disk { files: Vec::new(), dirs: Vec::new(), open: Vec::new() });
fn none() -> Error { ErrorKind::NotFound.into() }
impl Disk {
    fn at(&self, p: &Path) -> Option<usize> { self.files.iter().position(|f| f.0.as_os_str() == p.as_os_str()) }
}
#[derive(Debug, Clone)]
pub struct File { id: usize }
impl File {
    fn node(&self) -> Arc<Mutex<Inode>> { DISK.lock().unwrap().open[self.id].clone() }
    pub fn id(&self) -> usize { self.id }
    pub fn of(id: usize) -> File { File { id } }
    pub fn size(&self) -> usize { self.node().lock().unwrap().data.len() }
    pub fn sync_data(&self) -> Result<()> { let n = self.node(); let mut n = n.lock().unwrap(); n.synced = n.data.clone(); Ok(()) }
    pub fn sync_all(&self) -> Result<()> { self.sync_data() }
    pub fn set_len(&self, k: u64) -> Result<()> { self.node().lock().unwrap().data.resize(k as usize, 0); Ok(()) }
    pub fn read_at(&self, pos: usize, out: &mut [u8]) -> usize {
        let n = self.node();
        let n = n.lock().unwrap();
        if pos >= n.data.len() { return 0 }
        let k = out.len().min(n.data.len() - pos);
        out[..k].copy_from_slice(&n.data[pos..pos + k]);
        k
    }
    pub fn write_at(&self, pos: usize, data: &[u8]) -> usize {
        let n = self.node();
        let mut n = n.lock().unwrap();
        if n.data.len() < pos + data.len() { n.data.resize(pos + data.len(), 0) }
        n.data[pos..pos + data.len()].copy_from_slice(data);
        data.len()
    }
    pub fn metadata(&self) -> Result<Metadata> { Ok(Metadata { len: self.size() as u64, dir: false }) }
}
#[derive(Debug, Clone, Default)]
pub struct OpenOptions { create: bool, truncate: bool }
impl OpenOptions {
    pub fn new() -> Self { Self::default() }
    pub fn read(&mut self, _: bool) -> &mut Self { self }
    pub fn write(&mut self, _: bool) -> &mut Self { self }
    pub fn append(&mut self, _: bool) -> &mut Self { self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.create = b; self }
    pub fn truncate(&mut self, b: bool) -> &mut Self { self.truncate = b; self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
        let mut d = DISK.lock().unwrap();
        let n = match d.at(p.as_ref()) {
            Some(i) => d.files[i].1.clone(),
            None if self.create => { let n = Arc::new(Mutex::new(Inode::default())); d.files.push((p.as_ref().to_path_buf(), n.clone())); n }
            None => return Err(none()),
        };
        if self.truncate { n.lock().unwrap().data.clear() }
        d.open.push(n);
        Ok(File { id: d.open.len() - 1 })
    }
}
#[derive(Debug)]
pub struct Metadata { len: u64, dir: bool }
impl Metadata {
    pub fn len(&self) -> u64 { self.len }
    pub fn is_dir(&self) -> bool { self.dir }
    pub fn is_file(&self) -> bool { !self.dir }
}
pub fn metadata(p: impl AsRef<Path>) -> Result<Metadata> {
    let d = DISK.lock().unwrap();
    if let Some(i) = d.at(p.as_ref()) { let len = d.files[i].1.lock().unwrap().data.len() as u64; return Ok(Metadata { len, dir: false }) }
    if d.dirs.iter().any(|x| x.as_os_str() == p.as_ref().as_os_str()) { return Ok(Metadata { len: 0, dir: true }) }
    Err(none())
}
pub fn remove_file(p: impl AsRef<Path>) -> Result<()> {
    let mut d = DISK.lock().unwrap();
    match d.at(p.as_ref()) { Some(i) => { d.files.remove(i); Ok(()) } None => Err(none()) }
}
pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<()> {
    let mut d = DISK.lock().unwrap();
    let Some(i) = d.at(a.as_ref()) else { return Err(none()) };
    let n = d.files.remove(i).1;
    if let Some(j) = d.at(b.as_ref()) { d.files.remove(j); }
    d.files.push((b.as_ref().to_path_buf(), n));
    Ok(())
}
pub fn create_dir_all(p: impl AsRef<Path>) -> Result<()> {
    let mut d = DISK.lock().unwrap();
    let p = p.as_ref().to_path_buf();
    if !d.dirs.iter().any(|x| x.as_os_str() == p.as_os_str()) { d.dirs.push(p) }
    Ok(())
}
pub fn create_dir(p: impl AsRef<Path>) -> Result<()> { create_dir_all(p) }
pub fn remove_dir_all(p: impl AsRef<Path>) -> Result<()> {
    let mut d = DISK.lock().unwrap();
    d.files.retain(|f| !f.0.starts_with(p.as_ref()));
    d.dirs.retain(|f| !f.starts_with(p.as_ref()));
    Ok(())
}
/// names of the entries of a directory: (name, is_dir)
pub fn list(p: &Path) -> Vec<(String, bool)> {
    let d = DISK.lock().unwrap();
    let name = |x: &PathBuf| x.file_name().unwrap().to_str().unwrap().to_string();
    let mut r: Vec<(String, bool)> = d.files.iter().filter(|f| f.0.parent() == Some(p)).map(|f| (name(&f.0), false)).collect();
    r.extend(d.dirs.iter().filter(|f| f.parent() == Some(p)).map(|f| (name(f), true)));
    r.sort();
    r
}
// what checks use
pub fn wipe() { *DISK.lock().unwrap() = Disk { files: Vec::new(), dirs: Vec::new(), open: Vec::new() } }
pub fn contents(p: impl AsRef<Path>) -> Option<Vec<u8>> { let d = DISK.lock().unwrap(); d.at(p.as_ref()).map(|i| d.files[i].1.lock().unwrap().data.clone()) }
pub fn synced(p: impl AsRef<Path>) -> Option<Vec<u8>> { let d = DISK.lock().unwrap(); d.at(p.as_ref()).map(|i| d.files[i].1.lock().unwrap().synced.clone()) }
pub fn put(p: impl AsRef<Path>, data: Vec<u8>) {
    let mut d = DISK.lock().unwrap();
    if let Some(i) = d.at(p.as_ref()) { d.files.remove(i); }
    d.files.push((p.as_ref().to_path_buf(), Arc::new(Mutex::new(Inode { synced: data.clone(), data }))));
}
