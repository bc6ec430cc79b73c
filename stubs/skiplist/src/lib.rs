//! An ordered list. A new element goes before the elements equal to it, as in the real crate.
use std::cmp::Ordering;
pub use skiplist::Iter;
pub mod skiplist { pub use std::slice::Iter; }
pub struct OrderedSkipList<T> { v: Vec<T>, cmp: fn(&T, &T) -> Ordering }
fn dflt<T: PartialOrd>(a: &T, b: &T) -> Ordering { a.partial_cmp(b).expect("comparable") }
impl<T: PartialOrd> OrderedSkipList<T> {
    pub fn new() -> Self { Self { v: Vec::new(), cmp: dflt } }
}
impl<T> OrderedSkipList<T> {
    /// # Safety
    /// as in the real crate
    pub unsafe fn sort_by(&mut self, f: fn(&T, &T) -> Ordering) { self.cmp = f; assert!(self.v.is_empty()) }
    pub fn insert(&mut self, t: T) {
        let mut i = 0;
        while i < self.v.len() && (self.cmp)(&self.v[i], &t) == Ordering::Less { i += 1 }
        self.v.insert(i, t);
    }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn front(&self) -> Option<&T> { self.v.first() }
    pub fn back(&self) -> Option<&T> { self.v.last() }
    pub fn get(&self, i: usize) -> Option<&T> { self.v.get(i) }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.v.iter() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.v.retain(f) }
}
impl<T> IntoIterator for OrderedSkipList<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.v.into_iter() } }
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.v.iter() } }
impl<T: std::fmt::Debug> std::fmt::Debug for OrderedSkipList<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.v.fmt(f) } }
impl<T: PartialEq> PartialEq for OrderedSkipList<T> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<T: Eq> Eq for OrderedSkipList<T> {}
