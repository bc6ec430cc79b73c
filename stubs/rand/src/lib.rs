//! Replacement for `rand`: every draw is a fresh symbolic input, so a check covers every
//! possible outcome of the random choices the code makes.
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = self.next_u32() as u8;
        }
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
#[derive(Clone, Debug, Default)]
pub struct SymRng;
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        sx::u32("rand")
    }
    fn next_u64(&mut self) -> u64 {
        sx::u64("rand")
    }
}
pub trait FromRand {
    fn from_rand(v: u64) -> Self;
}
macro_rules! fr { ($($t:ty),*) => { $( impl FromRand for $t { fn from_rand(v: u64) -> $t { v as $t } }
    impl SampleUniform for $t { fn to(self) -> i128 { self as i128 } fn from(v: i128) -> Self { v as $t } } )* } }
fr!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl FromRand for bool {
    fn from_rand(v: u64) -> bool {
        v & 1 == 1
    }
}
pub trait SampleUniform: Copy {
    fn to(self) -> i128;
    fn from(v: i128) -> Self;
}
pub trait SampleRange<T> {
    fn bounds(self) -> (i128, i128);
}
impl<T: SampleUniform> SampleRange<T> for std::ops::Range<T> {
    fn bounds(self) -> (i128, i128) {
        (self.start.to(), self.end.to() - 1)
    }
}
impl<T: SampleUniform> SampleRange<T> for std::ops::RangeInclusive<T> {
    fn bounds(self) -> (i128, i128) {
        (self.start().to(), self.end().to())
    }
}
pub trait Rng: RngCore {
    fn gen<T: FromRand>(&mut self) -> T {
        T::from_rand(self.next_u64())
    }
    fn gen_range<T: SampleUniform, R: SampleRange<T>>(&mut self, r: R) -> T {
        let (lo, hi) = r.bounds();
        assert!(lo <= hi, "cannot sample empty range");
        T::from(lo + sx::range(0, (hi - lo) as u64, "rand") as i128)
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        self.next_u32() & 1 == 1
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub fn thread_rng() -> rngs::ThreadRng {
    SymRng
}
pub fn random<T: FromRand>() -> T {
    T::from_rand(sx::u64("rand"))
}
pub mod rngs {
    pub use super::SymRng as ThreadRng;
    pub use super::SymRng as StdRng;
    pub use super::SymRng as SmallRng;
    pub use super::SymRng as OsRng;
}
pub mod seq {
    use super::*;
    pub trait SliceRandom {
        type Item;
        fn choose<R: RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: RngCore + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                self.get(sx::range(0, self.len() as u64 - 1, "rand") as usize)
            }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: RngCore + ?Sized>(self, rng: &mut R) -> Option<Self::Item> {
            let mut v: Vec<_> = self.collect();
            let _ = &rng;
            if v.is_empty() {
                None
            } else {
                let i = sx::range(0, v.len() as u64 - 1, "rand") as usize;
                Some(v.swap_remove(i))
            }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude {
    pub use super::rngs::*;
    pub use super::seq::*;
    pub use super::{random, thread_rng, Rng, RngCore};
}
