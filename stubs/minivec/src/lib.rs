//! Stand-in for the crate that cannot be fetched here: a vector behind the same calls.
use std::ops::{Deref, DerefMut};
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
pub struct MiniVec<T>(Vec<T>);
impl<T> MiniVec<T> {
    pub fn new() -> Self { MiniVec(Vec::new()) }
    pub fn with_capacity(n: usize) -> Self { MiniVec(Vec::with_capacity(n)) }
    pub fn push(&mut self, t: T) { self.0.push(t) }
    pub fn pop(&mut self) -> Option<T> { self.0.pop() }
    pub fn capacity(&self) -> usize { self.0.capacity() }
    pub fn as_slice(&self) -> &[T] { &self.0 }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn extend_from_slice(&mut self, s: &[T]) where T: Clone { self.0.extend_from_slice(s) }
    pub fn resize(&mut self, n: usize, t: T) where T: Clone { self.0.resize(n, t) }
}
impl<T> Deref for MiniVec<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.0 } }
impl<T> DerefMut for MiniVec<T> { fn deref_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T> AsRef<[T]> for MiniVec<T> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T: Clone> From<&[T]> for MiniVec<T> { fn from(s: &[T]) -> Self { MiniVec(s.to_vec()) } }
impl<T: Clone, const N: usize> From<&[T; N]> for MiniVec<T> { fn from(s: &[T; N]) -> Self { MiniVec(s.to_vec()) } }
impl<T> From<Vec<T>> for MiniVec<T> { fn from(s: Vec<T>) -> Self { MiniVec(s) } }
impl From<&str> for MiniVec<u8> { fn from(s: &str) -> Self { MiniVec(s.as_bytes().to_vec()) } }
impl<T> FromIterator<T> for MiniVec<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { MiniVec(i.into_iter().collect()) } }
impl<T> Extend<T> for MiniVec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
impl<T> IntoIterator for MiniVec<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T> IntoIterator for &'a MiniVec<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T: PartialEq, const N: usize> PartialEq<[T; N]> for MiniVec<T> { fn eq(&self, o: &[T; N]) -> bool { self.0[..] == o[..] } }
impl std::io::Write for MiniVec<u8> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[macro_export]
macro_rules! mini_vec { ($($t:tt)*) => { $crate::MiniVec::from(vec![$($t)*]) } }
