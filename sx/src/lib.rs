//! Harness API.  Compiled for riscv64 the functions are bodiless externs that the symbolic
//! executor (`/verif/engine`) implements; compiled natively they replay one concrete input
//! vector (a model found by the solver, or a sampled path) against the real code.
#![allow(clippy::missing_safety_doc)]

#[cfg(target_arch = "riscv64")]
mod imp {
    extern "C" {
        fn __sx_sym(width: u32, name: *const u8, len: usize) -> u64;
        fn __sx_range(lo: u64, hi: u64, name: *const u8, len: usize) -> u64;
        fn __sx_assume(c: bool);
        fn __sx_assert(c: bool, msg: *const u8, len: usize);
        fn __sx_fail(msg: *const u8, len: usize) -> !;
        fn __sx_stop() -> !;
        fn __sx_cover(name: *const u8, len: usize);
        fn __sx_concretize(v: u64) -> u64;
        fn __sx_ite(c: bool, a: u64, b: u64) -> u64;
        fn __sx_trace(v: u64);
        fn __sx_try(f: extern "C" fn(*mut u8), data: *mut u8) -> u64;
        fn __sx_param(name: *const u8, len: usize, default: u64) -> u64;
        fn __sx_live_heap() -> u64;
    }
    pub fn sym(width: u32, name: &str) -> u64 {
        unsafe { __sx_sym(width, name.as_ptr(), name.len()) }
    }
    pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
        unsafe { __sx_range(lo, hi, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { __sx_assume(c) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { __sx_assert(c, msg.as_ptr(), msg.len()) }
    }
    pub fn fail(msg: &str) -> ! {
        unsafe { __sx_fail(msg.as_ptr(), msg.len()) }
    }
    pub fn stop() -> ! {
        unsafe { __sx_stop() }
    }
    pub fn cover(name: &str) {
        unsafe { __sx_cover(name.as_ptr(), name.len()) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { __sx_concretize(v) }
    }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 {
        unsafe { __sx_ite(c, a, b) }
    }
    pub fn trace(v: u64) {
        unsafe { __sx_trace(v) }
    }
    pub fn param(name: &str, default: u64) -> u64 {
        unsafe { __sx_param(name.as_ptr(), name.len(), default) }
    }
    pub fn live_heap() -> u64 {
        unsafe { __sx_live_heap() }
    }
    /// Runs `f`; true when it panicked.
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        struct D<F>(Option<F>);
        extern "C" fn call<F: FnOnce()>(p: *mut u8) {
            let d = unsafe { &mut *(p as *mut D<F>) };
            if let Some(f) = d.0.take() {
                f()
            }
        }
        let mut d = D(Some(f));
        let r = unsafe { __sx_try(call::<F>, &mut d as *mut D<F> as *mut u8) };
        if r != 0 {
            std::mem::forget(d);
        }
        r != 0
    }
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    use std::cell::RefCell;
    use std::collections::{BTreeMap, VecDeque};
    #[derive(Default)]
    pub struct Replay {
        pub inputs: VecDeque<(String, u64)>,
        pub params: BTreeMap<String, u64>,
        pub trace: Vec<u64>,
        pub covers: Vec<String>,
        pub failures: Vec<String>,
    }
    thread_local! { pub static R: RefCell<Replay> = RefCell::new(Replay::default()); }
    pub struct Stop(pub &'static str);

    fn next(name: &str) -> u64 {
        R.with(|r| {
            let mut r = r.borrow_mut();
            match r.inputs.pop_front() {
                Some((n, v)) if n == name => v,
                Some((n, _)) => {
                    eprintln!("replay diverged: wanted input {name}, recorded {n}");
                    std::panic::panic_any(Stop("diverged"))
                }
                None => {
                    // the path ended (violation) before this input was created
                    std::panic::panic_any(Stop("inputs-exhausted"))
                }
            }
        })
    }
    pub fn sym(_w: u32, name: &str) -> u64 {
        next(name)
    }
    pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
        if lo == hi {
            return lo;
        }
        let v = next(name).wrapping_add(lo);
        if v < lo || v > hi {
            std::panic::panic_any(Stop("diverged"))
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop("assume"))
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            R.with(|r| r.borrow_mut().failures.push(msg.to_string()));
            std::panic::panic_any(Stop("check"))
        }
    }
    pub fn fail(msg: &str) -> ! {
        R.with(|r| r.borrow_mut().failures.push(msg.to_string()));
        std::panic::panic_any(Stop("check"))
    }
    pub fn stop() -> ! {
        std::panic::panic_any(Stop("stop"))
    }
    pub fn cover(name: &str) {
        R.with(|r| r.borrow_mut().covers.push(name.to_string()))
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub fn trace(v: u64) {
        R.with(|r| r.borrow_mut().trace.push(v))
    }
    pub fn param(name: &str, default: u64) -> u64 {
        R.with(|r| r.borrow().params.get(name).copied().unwrap_or(default))
    }
    pub fn live_heap() -> u64 {
        0
    }
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => false,
            Err(e) => {
                if e.is::<Stop>() {
                    std::panic::resume_unwind(e)
                }
                true
            }
        }
    }

    /// `replay < CASES`: each case is lines `case <harness>`, `param k v`, `in <name> <value>`,
    /// `end`.  Prints one JSON line per case.
    pub fn replay_main(table: &[(&str, fn())]) {
        std::panic::set_hook(Box::new(|_| {}));
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
        let mut harness = String::new();
        let mut rep = Replay::default();
        for line in text.lines() {
            let mut it = line.split('\t');
            match it.next().unwrap_or("") {
                "case" => {
                    harness = it.next().unwrap().to_string();
                    rep = Replay::default();
                }
                "param" => {
                    let k = it.next().unwrap().to_string();
                    rep.params.insert(k, it.next().unwrap().parse().unwrap());
                }
                "in" => {
                    let k = it.next().unwrap().to_string();
                    rep.inputs.push_back((k, it.next().unwrap().parse().unwrap()));
                }
                "end" => {
                    let Some((_, f)) = table.iter().find(|(n, _)| *n == harness) else {
                        println!("{{\"outcome\":\"unknown-harness\"}}");
                        continue;
                    };
                    let f = *f;
                    R.with(|r| *r.borrow_mut() = std::mem::take(&mut rep));
                    let res = std::panic::catch_unwind(f);
                    let mut msg = String::new();
                    let outcome = match res {
                        Ok(()) => "done",
                        Err(e) => {
                            if let Some(s) = e.downcast_ref::<Stop>() {
                                s.0
                            } else {
                                if let Some(s) = e.downcast_ref::<String>() {
                                    msg = s.clone();
                                } else if let Some(s) = e.downcast_ref::<&str>() {
                                    msg = s.to_string();
                                }
                                "panic"
                            }
                        }
                    };
                    R.with(|r| {
                        let r = r.borrow();
                        println!(
                            "{{\"outcome\":\"{}\",\"msg\":{:?},\"failures\":{},\"trace\":{:?},\"covers\":{},\"left\":{}}}",
                            outcome,
                            msg.chars().map(|c| if c.is_ascii() && !c.is_control() { c } else { '.' }).collect::<String>(),
                            js(&r.failures),
                            r.trace,
                            js(&r.covers),
                            r.inputs.len()
                        );
                    });
                }
                _ => {}
            }
        }
    }
    fn js(v: &[String]) -> String {
        let v: Vec<String> = v.iter().map(|s| format!("{:?}", s)).collect();
        format!("[{}]", v.join(","))
    }
}

pub use imp::*;

pub fn u8(n: &str) -> u8 {
    sym(8, n) as u8
}
pub fn u16(n: &str) -> u16 {
    sym(16, n) as u16
}
pub fn u32(n: &str) -> u32 {
    sym(32, n) as u32
}
pub fn u64(n: &str) -> u64 {
    sym(64, n)
}
pub fn i64(n: &str) -> i64 {
    sym(64, n) as i64
}
pub fn i32(n: &str) -> i32 {
    sym(32, n) as u32 as i32
}
pub fn bool(n: &str) -> bool {
    sym(1, n) & 1 == 1
}
pub fn usize(lo: usize, hi: usize, n: &str) -> usize {
    range(lo as u64, hi as u64, n) as usize
}
/// A value in lo..=hi, split into one path per value.
pub fn choose(lo: usize, hi: usize, n: &str) -> usize {
    concretize(range(lo as u64, hi as u64, n)) as usize
}
pub fn bytes<const N: usize>(n: &str) -> [u8; N] {
    let mut a = [0u8; N];
    for x in a.iter_mut() {
        *x = u8(n);
    }
    a
}
pub fn byte_vec(len: usize, n: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(u8(n));
    }
    v
}
/// ASCII string of `len` bytes drawn from `alphabet` (index symbolic).
pub fn string_from(alphabet: &[u8], len: usize, n: &str) -> String {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let i = usize(0, alphabet.len() - 1, n);
        v.push(alphabet[i]);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// `check!(cond, "message")`
#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        $crate::check($c, $m)
    };
}

/// Defines harness functions and the native replay table.
#[macro_export]
macro_rules! harnesses {
    ($(#[doc=$d:expr])* $($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// Minimal executor for futures that never actually wait.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn cl(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn no(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..16 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    fail("future did not complete")
}

/// The clock every `now()` in the code under test reads (seconds and nanoseconds since 1970).
static mut CLOCK: [i64; 2] = [1_700_000_000, 0];
pub fn set_clock(secs: i64, nanos: i64) {
    unsafe {
        (&raw mut CLOCK).cast::<i64>().write(secs);
        (&raw mut CLOCK).cast::<i64>().add(1).write(nanos);
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, ts: *mut i64) -> i32 {
    let c = (&raw const CLOCK).cast::<i64>();
    ts.write(c.read());
    ts.add(1).write(c.add(1).read());
    0
}
