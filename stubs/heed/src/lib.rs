//! Stand-in for heed (LMDB): one ordered map per directory, kept for the life of the process; a write transaction works on
//! a copy that `commit` puts in place and dropping it discards.
use std::cell::RefCell;
use std::ops::{Bound, RangeBounds};
use std::path::{Path, PathBuf};
use std::rc::Rc;
pub mod types { pub struct Bytes; }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("heed error") } }
impl std::error::Error for Error {}
pub struct EnvFlags;
impl EnvFlags { pub const NO_SYNC: EnvFlags = EnvFlags; }
type Map = Vec<(Vec<u8>, Vec<u8>)>;
struct Store { path: PathBuf, map: Rc<RefCell<Map>> }
struct Stores(std::cell::UnsafeCell<Vec<Store>>);
unsafe impl Sync for Stores {}
static STORES: Stores = Stores(std::cell::UnsafeCell::new(Vec::new()));
fn stores() -> &'static mut Vec<Store> { unsafe { &mut *STORES.0.get() } }
/// For the checks: forget every environment.
pub fn wipe() { stores().clear() }
pub struct EnvOpenOptions;
impl EnvOpenOptions {
    pub fn new() -> Self { EnvOpenOptions }
    pub unsafe fn flags(&mut self, _: EnvFlags) -> &mut Self { self }
    pub fn map_size(&mut self, _: usize) -> &mut Self { self }
    pub fn max_dbs(&mut self, _: u32) -> &mut Self { self }
    pub fn max_readers(&mut self, _: u32) -> &mut Self { self }
    pub unsafe fn open<P: AsRef<Path>>(&self, p: P) -> Result<Env> {
        let p = p.as_ref();
        for s in stores().iter() { if s.path.as_path() == p { return Ok(Env { map: s.map.clone() }) } }
        let map = Rc::new(RefCell::new(vec![]));
        stores().push(Store { path: p.to_path_buf(), map: map.clone() });
        Ok(Env { map })
    }
}
#[derive(Clone)]
pub struct Env { map: Rc<RefCell<Map>> }
unsafe impl Send for Env {}
unsafe impl Sync for Env {}
impl std::fmt::Debug for Env { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Env") } }
impl Env {
    pub fn write_txn(&self) -> Result<RwTxn<'_>> { Ok(RwTxn { ro: RoTxn { map: self.map.borrow().clone(), _e: self }, env: self }) }
    pub fn read_txn(&self) -> Result<RoTxn<'_>> { Ok(RoTxn { map: self.map.borrow().clone(), _e: self }) }
    pub fn create_database<K, V>(&self, _: &mut RwTxn, _: Option<&str>) -> Result<Database<K, V>> { Ok(Database { k: std::marker::PhantomData }) }
    pub fn open_database<K, V>(&self, _: &RoTxn, _: Option<&str>) -> Result<Option<Database<K, V>>> { Ok(Some(Database { k: std::marker::PhantomData })) }
    pub fn force_sync(&self) -> Result<()> { Ok(()) }
}
pub struct RoTxn<'e> { map: Map, _e: &'e Env }
pub struct RwTxn<'e> { ro: RoTxn<'e>, env: &'e Env }
impl<'e> std::ops::Deref for RwTxn<'e> { type Target = RoTxn<'e>; fn deref(&self) -> &RoTxn<'e> { &self.ro } }
impl<'e> RwTxn<'e> { pub fn commit(self) -> Result<()> { *self.env.map.borrow_mut() = self.ro.map; Ok(()) } }
pub struct Database<K, V> { k: std::marker::PhantomData<fn(K, V)> }
impl<K, V> Clone for Database<K, V> { fn clone(&self) -> Self { Database { k: std::marker::PhantomData } } }
impl<K, V> Copy for Database<K, V> {}
fn at(m: &Map, k: &[u8]) -> std::result::Result<usize, usize> {
    let mut i = 0;
    while i < m.len() {
        match m[i].0.as_slice().cmp(k) { std::cmp::Ordering::Less => i += 1, std::cmp::Ordering::Equal => return Ok(i), std::cmp::Ordering::Greater => return Err(i) }
    }
    Err(i)
}
impl Database<types::Bytes, types::Bytes> {
    pub fn put(&self, t: &mut RwTxn, k: &[u8], v: &[u8]) -> Result<()> {
        // LMDB refuses an empty key and one longer than 511 bytes
        if k.is_empty() || k.len() > 511 { return Err(Error) }
        match at(&t.ro.map, k) { Ok(i) => t.ro.map[i].1 = v.to_vec(), Err(i) => t.ro.map.insert(i, (k.to_vec(), v.to_vec())) }
        Ok(())
    }
    pub fn get<'t>(&self, t: &'t RoTxn, k: &[u8]) -> Result<Option<&'t [u8]>> { Ok(at(&t.map, k).ok().map(|i| t.map[i].1.as_slice())) }
    pub fn delete(&self, t: &mut RwTxn, k: &[u8]) -> Result<bool> { Ok(match at(&t.ro.map, k) { Ok(i) => { t.ro.map.remove(i); true } Err(_) => false }) }
    pub fn delete_range<'a, R: RangeBounds<&'a [u8]>>(&self, t: &mut RwTxn, r: &R) -> Result<usize> {
        let n = t.ro.map.len();
        t.ro.map.retain(|(k, _)| !inside(k, r));
        Ok(n - t.ro.map.len())
    }
    pub fn range<'t, 'a, R: RangeBounds<&'a [u8]>>(&self, t: &'t RoTxn, r: &R) -> Result<Iter<'t>> {
        Ok(Iter { items: t.map.iter().filter(|(k, _)| inside(k, r)).map(|(k, v)| (k.as_slice(), v.as_slice())).collect::<Vec<_>>().into_iter() })
    }
    pub fn prefix_iter<'t>(&self, t: &'t RoTxn, p: &[u8]) -> Result<Iter<'t>> {
        Ok(Iter { items: t.map.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.as_slice(), v.as_slice())).collect::<Vec<_>>().into_iter() })
    }
    pub fn iter<'t>(&self, t: &'t RoTxn) -> Result<Iter<'t>> { self.prefix_iter(t, b"") }
    pub fn clear(&self, t: &mut RwTxn) -> Result<()> { t.ro.map.clear(); Ok(()) }
    pub fn len(&self, t: &RoTxn) -> Result<u64> { Ok(t.map.len() as u64) }
}
fn inside<'a, R: RangeBounds<&'a [u8]>>(k: &[u8], r: &R) -> bool {
    (match r.start_bound() { Bound::Included(s) => k >= *s, Bound::Excluded(s) => k > *s, Bound::Unbounded => true })
        && (match r.end_bound() { Bound::Included(e) => k <= *e, Bound::Excluded(e) => k < *e, Bound::Unbounded => true })
}
pub struct Iter<'t> { items: std::vec::IntoIter<(&'t [u8], &'t [u8])> }
impl<'t> Iterator for Iter<'t> { type Item = Result<(&'t [u8], &'t [u8])>; fn next(&mut self) -> Option<Self::Item> { self.items.next().map(Ok) } }
