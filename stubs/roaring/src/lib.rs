//! Stand-in for the roaring crate: an ordered set of u32, with a serialisation of its own (length, then the values).
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::ops::{BitAnd, BitOr, BitOrAssign, BitAndAssign, Sub};
#[derive(Clone, Default, PartialEq)]
pub struct RoaringBitmap(Vec<u32>);
impl std::fmt::Debug for RoaringBitmap { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RoaringBitmap") } }
impl RoaringBitmap {
    pub fn new() -> Self { RoaringBitmap(vec![]) }
    fn pos(&self, v: u32) -> std::result::Result<usize, usize> {
        let mut i = 0;
        while i < self.0.len() && self.0[i] < v { i += 1 }
        if i < self.0.len() && self.0[i] == v { Ok(i) } else { Err(i) }
    }
    pub fn insert(&mut self, v: u32) -> bool { match self.pos(v) { Ok(_) => false, Err(i) => { self.0.insert(i, v); true } } }
    pub fn remove(&mut self, v: u32) -> bool { match self.pos(v) { Ok(i) => { self.0.remove(i); true } Err(_) => false } }
    pub fn contains(&self, v: u32) -> bool { self.pos(v).is_ok() }
    pub fn len(&self) -> u64 { self.0.len() as u64 }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, u32>> { self.0.iter().copied() }
    pub fn serialize_into<W: Write>(&self, mut w: W) -> Result<()> {
        w.write_all(&(self.0.len() as u32).to_le_bytes())?;
        for v in &self.0 { w.write_all(&v.to_le_bytes())? }
        Ok(())
    }
    pub fn serialized_size(&self) -> usize { 4 + 4 * self.0.len() }
    pub fn deserialize_from<R: Read>(mut r: R) -> Result<Self> {
        let mut b = [0; 4];
        r.read_exact(&mut b)?;
        let n = u32::from_le_bytes(b);
        let mut out = vec![];
        for _ in 0..n {
            r.read_exact(&mut b)?;
            let v = u32::from_le_bytes(b);
            if out.last().map_or(false, |l| *l >= v) { return Err(Error::new(ErrorKind::InvalidData, "not ascending")) }
            out.push(v);
        }
        Ok(RoaringBitmap(out))
    }
}
impl IntoIterator for RoaringBitmap { type Item = u32; type IntoIter = std::vec::IntoIter<u32>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> IntoIterator for &'a RoaringBitmap { type Item = u32; type IntoIter = std::iter::Copied<std::slice::Iter<'a, u32>>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl FromIterator<u32> for RoaringBitmap { fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Self { let mut r = Self::new(); for v in i { r.insert(v); } r } }
impl Extend<u32> for RoaringBitmap { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { for v in i { self.insert(v); } } }
fn or(a: &RoaringBitmap, b: &RoaringBitmap) -> RoaringBitmap { let mut r = a.clone(); for v in b.iter() { r.insert(v); } r }
fn and(a: &RoaringBitmap, b: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(a.iter().filter(|v| b.contains(*v)).collect()) }
fn sub(a: &RoaringBitmap, b: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(a.iter().filter(|v| !b.contains(*v)).collect()) }
macro_rules! ops { ($t:ident, $m:ident, $f:ident) => {
    impl $t for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { $f(&self, &o) } }
    impl<'a> $t<&'a RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { $f(&self, o) } }
    impl<'a> $t<RoaringBitmap> for &'a RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { $f(self, &o) } }
    impl<'a, 'b> $t<&'b RoaringBitmap> for &'a RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { $f(self, o) } }
} }
ops!(BitOr, bitor, or);
ops!(BitAnd, bitand, and);
ops!(Sub, sub, sub);
impl BitOrAssign for RoaringBitmap { fn bitor_assign(&mut self, o: RoaringBitmap) { *self = or(self, &o) } }
impl BitOrAssign<&RoaringBitmap> for RoaringBitmap { fn bitor_assign(&mut self, o: &RoaringBitmap) { *self = or(self, o) } }
impl BitAndAssign for RoaringBitmap { fn bitand_assign(&mut self, o: RoaringBitmap) { *self = and(self, &o) } }
impl BitAndAssign<&RoaringBitmap> for RoaringBitmap { fn bitand_assign(&mut self, o: &RoaringBitmap) { *self = and(self, o) } }
