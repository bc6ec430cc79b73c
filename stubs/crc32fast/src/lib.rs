//! crc32fast itself, and a switch: with `abstracted(true)`, bytes the symbolic executor does not know are left out of the
//! sum, so that what was written checks and what differs in known bytes does not. A native run always sums every byte.
use std::sync::atomic::{AtomicBool, Ordering};
static ALL: AtomicBool = AtomicBool::new(false);
/// Leaves out every byte (for checks in which no file is damaged).
pub fn left_out(on: bool) { ALL.store(on, Ordering::Relaxed) }
static ABSTRACT: AtomicBool = AtomicBool::new(false);
pub fn abstracted(on: bool) { ABSTRACT.store(on, Ordering::Relaxed) }
#[cfg(target_arch = "riscv64")]
extern "C" { fn __sx_is_sym(v: u64) -> bool; }
#[derive(Clone)]
pub struct Hasher(real::Hasher);
impl Hasher {
    pub fn new() -> Hasher { Hasher(real::Hasher::new()) }
    pub fn update(&mut self, b: &[u8]) {
        #[cfg(target_arch = "riscv64")]
        #[cfg(target_arch = "riscv64")]
        if ALL.load(Ordering::Relaxed) { return }
        #[cfg(target_arch = "riscv64")]
        if ABSTRACT.load(Ordering::Relaxed) {
            let v: Vec<u8> = b.iter().map(|x| *x).filter(|x| !unsafe { __sx_is_sym(*x as u64) }).collect();
            return self.0.update(&v);
        }
        self.0.update(b)
    }
    pub fn finalize(self) -> u32 { self.0.finalize() ^ if cfg!(target_arch = "riscv64") && ALL.load(Ordering::Relaxed) { 0x5a17_c0de } else { 0 } }
    pub fn reset(&mut self) { self.0.reset() }
}
impl Default for Hasher { fn default() -> Self { Self::new() } }
pub fn hash(b: &[u8]) -> u32 { let mut h = Hasher::new(); h.update(b); h.finalize() }
