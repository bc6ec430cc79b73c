//! Symbolic executor: states, memory, instruction semantics, path exploration.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { I(u64), S(E), A(Rc<Vec<V>>), U }

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub kind: u8, pub align: u64 } // kind: b'h' heap b's' stack b'g' global b'c' const global
impl Obj {
    fn new(size: u64, kind: u8) -> Obj { Obj { size, data: vec![0; size as usize], sym: None, kind, align: 1 } }
}
#[derive(Clone)]
pub struct Frame { pub f: u32, pub body: Rc<Body>, pub regs: Vec<V>, pub blk: u32, pub ip: u32, pub dst: u32, pub allocas: Vec<u64>, pub sp: u64, pub is_try: bool }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub heap: u64, pub sp: u64,
    pub pc: Vec<E>,
    pub known: Rc<FxMap<E, u128>>,
    pub model: Rc<Vec<u128>>, pub model_id: u64,
    pub inputs: Vec<(u32, Rc<str>)>,
    pub trace: Vec<V>,
    pub covers: BTreeSet<Rc<str>>,
    pub steps: u64, pub depth: u32,
    pub live_heap: i64,
}
#[derive(Debug, Clone)]
pub enum Stop { Done, Infeasible, Panic { msg: String, loc: String }, Ub(String), Unsupported(String), Limit(String), Abort(String) }
type Res<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub loc: String, pub stack: Vec<String>, pub inputs: Vec<(String, u32, u128)> }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<(String, u32, u128)>, pub trace: Vec<u128>, pub covers: Vec<String>, pub outcome: String }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub asserts_sym: u64, pub assumes: u64,
    pub panics_caught: u64,
    pub covers: BTreeMap<String, (u64, Option<Sample>)>,
    pub violations: Vec<Violation>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub funcs: BTreeSet<u32>,
    pub stats: Stats,
    pub max_pc: usize,
}

pub struct Opts { pub time: f64, pub steps: u64, pub max_viol: usize, pub samples: usize, pub mux_read: u64, pub mux_write: u64, pub verbose: bool, pub params: HashMap<String, u64>, pub leak: bool }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp { None, Alloc, AllocZ, Dealloc, Realloc, Nop, Malloc, Calloc, Free, ReallocC, PosixMemalign, Bcmp, Memcmp, Strlen, Memcpy, Memset, RandKeys, PanicFmt, PanicStr, Abort, ErrnoLoc, Zero, ClockGettime, Syscall, Write, Intr, SxSym, SxAssume, SxAssert, SxCover, SxConc, SxTrace, SxTry, SxParam, SxDbg, SxFail, SxStop, SxRange, ThreadSpawn, GetRandom, PthreadSelf, SxAnd, SxLive, SxIsSym, SxIte }

pub struct Ex<'a> {
    pub m: &'a Module, pub x: Ctx, pub s: Solver, pub o: Opts, pub r: Report,
    fmtint: Vec<u64>, digits: u64, gaddr: Vec<u64>, cmap: BTreeMap<u64, Rc<Obj>>, fspecial: Vec<Sp>,
    consts: Vec<V>, nconst: usize,
    pub work: Vec<State>, model_ctr: u64,
    ev: FxMap<E, u128>, ev_id: u64,
    vartab: HashMap<(usize, String, u32), E>,
    errno: u64,
    pub start: Instant, cur_snap: bool,
    intr: Vec<String>,
    pub stop_all: bool,
    pub shared_stop: *const std::sync::atomic::AtomicU64,
    /// splits this worker's work in two when a job slot is free: (free slots left as a number of running workers, jobs)
    pub split: Option<fn(&mut Ex)>,
}
pub const FBASE: u64 = 0x7f00_0000_0000;
const GBASE: u64 = 0x1_0000_0000;
const HBASE: u64 = 0x20_0000_0000;
const SBASE: u64 = 0x60_0000_0000;

/// The width of the number this function writes in decimal, or 0.
fn fmt_int(n: &str) -> u64 {
    if !n.contains("4core3fmt3num3imp") || !n.contains("7Display3fmt") { return 0 }
    match n.split("4core3fmt3num3imp").nth(1).and_then(|s| s.chars().next()) { Some('x' | 'y' | 'i' | 'j') => 8, Some('l' | 'm') => 4, Some('s' | 't') => 2, Some('a' | 'h') => 1, _ => 0 }
}
fn classify(n: &str, has_body: bool) -> Sp {
    if n.starts_with("llvm.") { return Sp::Intr }
    if n.ends_with("___rust_alloc") { return Sp::Alloc }
    if n.ends_with("___rust_alloc_zeroed") { return Sp::AllocZ }
    if n.ends_with("___rust_dealloc") { return Sp::Dealloc }
    if n.ends_with("___rust_realloc") { return Sp::Realloc }
    if n.contains("no_alloc_shim_is_unstable") { return Sp::Nop }
    if n.contains("20hashmap_random_keys") || n.contains("19hashmap_random_keys") { return Sp::RandKeys }
    if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking19panic_nounwind_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") { return Sp::PanicFmt }
    if n.contains("3std9panicking") && (n.contains("20rust_panic_with_hook") || n.contains("begin_panic")) || n.contains("12resume_unwind") { return Sp::PanicStr }
    if n.contains("5alloc18handle_alloc_error") { return Sp::PanicStr }
    if n.contains("11destructors10linux_like8register") { return Sp::Nop }
    if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") { return Sp::Nop }
    if n.contains("3std7process5abort") || n.contains("3std7process4exit") { return Sp::Abort }
    match n {
        "__sx_sym" => return Sp::SxSym, "__sx_assume" => return Sp::SxAssume, "__sx_assert" => return Sp::SxAssert, "__sx_cover" => return Sp::SxCover,
        "__sx_concretize" => return Sp::SxConc, "__sx_trace" => return Sp::SxTrace, "__sx_try" => return Sp::SxTry, "__sx_param" => return Sp::SxParam, "__sx_dbg" => return Sp::SxDbg,
        "__sx_fail" => return Sp::SxFail, "__sx_stop" => return Sp::SxStop, "__sx_range" => return Sp::SxRange, "__sx_live_heap" => return Sp::SxLive, "__sx_is_sym" => return Sp::SxIsSym, "__sx_ite" => return Sp::SxIte,
        "memcpy" | "memmove" => return Sp::Memcpy, "memset" => return Sp::Memset, "bcmp" => return Sp::Bcmp, "memcmp" => return Sp::Memcmp, "strlen" => return Sp::Strlen,
        _ => {}
    }
    if has_body { return Sp::None }
    match n {
        "malloc" => Sp::Malloc, "calloc" => Sp::Calloc, "free" => Sp::Free, "realloc" => Sp::ReallocC, "posix_memalign" => Sp::PosixMemalign,
        "abort" | "exit" | "_exit" => Sp::Abort, "__errno_location" => Sp::ErrnoLoc,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "getenv" | "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_getspecific" | "sigaction" | "munmap" | "__cxa_thread_atexit_impl" | "gettid" | "getpid" | "isatty" | "close" => Sp::Zero,
        "clock_gettime" => Sp::ClockGettime, "syscall" => Sp::Syscall, "write" => Sp::Write, "getrandom" => Sp::GetRandom, "pthread_self" => Sp::PthreadSelf,
        _ => Sp::None,
    }
}

impl<'a> Ex<'a> {
    pub fn new(m: &'a Module, o: Opts, timeout_ms: u32) -> Ex<'a> {
        let digits = *o.params.get("digits").unwrap_or(&1);
        let mut ex = Ex { m, fmtint: vec![], digits, x: Ctx::new(), s: Solver::new(timeout_ms), o, r: Default::default(), gaddr: vec![], cmap: BTreeMap::new(), fspecial: vec![], consts: vec![], nconst: 0, work: vec![], model_ctr: 1, ev: Default::default(), ev_id: 0, vartab: HashMap::new(), errno: 0, start: Instant::now(), cur_snap: false, intr: vec![], stop_all: false, shared_stop: std::ptr::null(), split: None };
        for f in &m.funcs { ex.fspecial.push(classify(&f.name, f.src.is_some())); ex.intr.push(f.name.clone()); ex.fmtint.push(fmt_int(&f.name)); }
        ex
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let m = self.m;
        let mut a = GBASE;
        for g in &m.globals {
            let sz = m.types.borrow().size(g.ty);
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            self.gaddr.push(if g.weak && g.init.is_none() { 0 } else { a });
            a += sz.max(1) + 32;
        }
        let mut mem: BTreeMap<u64, Rc<Obj>> = BTreeMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            if self.gaddr[i] == 0 { continue }
            let sz = m.types.borrow().size(g.ty);
            let mut ob = Obj::new(sz, if g.konst { b'c' } else { b'g' });
            if let Some(c) = &g.init { self.write_const(&mut ob.data, 0, g.ty, c); }
            if g.konst { self.cmap.insert(self.gaddr[i], Rc::new(ob)); } else { mem.insert(self.gaddr[i], Rc::new(ob)); }
        }
        self.errno = a + 64;
        mem.insert(self.errno, Rc::new(Obj::new(8, b'g')));
        mem.insert(self.errno + 64, Rc::new(Obj::new(8, b'g')));
        let f = *m.fidx.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(4) });
        let body = m.body(f).unwrap();
        self.r.funcs.insert(f);
        let fr = Frame { f, regs: vec![V::U; body.nregs as usize], body, blk: 0, ip: 0, dst: NODST, allocas: vec![], sp: SBASE, is_try: false };
        self.refresh_consts();
        State { frames: vec![Rc::new(fr)], mem: Rc::new(mem), heap: HBASE, sp: SBASE, pc: vec![], known: Default::default(), model: Rc::new(vec![]), model_id: 0, inputs: vec![], trace: vec![], covers: Default::default(), steps: 0, depth: 0, live_heap: 0 }
    }
    fn const_val(&self, t: Ty, c: &C) -> u128 {
        match c {
            C::Int(v) => *v, C::Undef | C::Zero => 0,
            C::Global(g) => self.gaddr[*g as usize] as u128,
            C::Func(f) => { if self.m.funcs[*f as usize].weak && self.m.funcs[*f as usize].src.is_none() { 0 } else { (FBASE + *f as u64 * 16) as u128 } }
            C::Gep(b, idx, st) => {
                let mut a = self.const_val(0, b) as u64;
                let mut cur = *st;
                for (i, (it, ic)) in idx.iter().enumerate() {
                    let w = self.m.types.borrow().bits(*it);
                    let k = sx(self.const_val(*it, ic), w) as i64;
                    let ts = self.m.types.borrow();
                    if i == 0 { a = a.wrapping_add((k as u64).wrapping_mul(ts.size(cur))); } else {
                        match ts.k(cur).clone() {
                            TyK::Array(_, e) | TyK::Vec(_, e) => { a = a.wrapping_add((k as u64).wrapping_mul(ts.size(e))); cur = e }
                            TyK::Struct(fs, _) => { a = a.wrapping_add(ts.t[cur as usize].offs[k as usize]); cur = fs[k as usize] }
                            _ => panic!("const gep"),
                        }
                    }
                }
                a as u128
            }
            C::Cast(ft, tt, c) => { let v = self.const_val(*ft, c); let w = self.m.types.borrow().bits(*tt); v & mask(w) }
            C::Bin(op, t, a, b) => { let w = self.m.types.borrow().bits(*t); let (x, y) = (self.const_val(*t, a), self.const_val(*t, b)); (match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "xor" => x ^ y, _ => x << (y as u32) }) & mask(w) }
            _ => { let _ = t; panic!("const_val {:?}", c) }
        }
    }
    fn write_const(&self, d: &mut [u8], off: u64, t: Ty, c: &C) {
        let k = self.m.types.borrow().k(t).clone();
        match (&k, c) {
            (_, C::Zero) | (_, C::Undef) => {}
            (TyK::Array(_, _), C::Bytes(b)) => d[off as usize..off as usize + b.len()].copy_from_slice(b),
            (TyK::Array(_, e), C::Agg(v)) => { let s = self.m.types.borrow().size(*e); for (i, x) in v.iter().enumerate() { self.write_const(d, off + i as u64 * s, *e, x) } }
            (TyK::Vec(_, e), C::Agg(v)) => { let s = (self.m.types.borrow().bits(*e) as u64 + 7) / 8; for (i, x) in v.iter().enumerate() { self.write_const(d, off + i as u64 * s, *e, x) } }
            (TyK::Struct(fs, _), C::Agg(v)) => { let offs = self.m.types.borrow().t[t as usize].offs.clone(); for (i, x) in v.iter().enumerate() { self.write_const(d, off + offs[i], fs[i], x) } }
            _ => { let v = self.const_val(t, c); let n = (self.m.types.borrow().bits(t) as usize + 7) / 8; d[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]) }
        }
    }
    fn cval(&mut self, t: Ty, c: &C) -> V {
        let k = self.m.types.borrow().k(t).clone();
        match (&k, c) {
            (_, C::Undef) => V::U,
            (TyK::Struct(fs, _), C::Zero) => V::A(Rc::new(fs.iter().map(|f| self.cval(*f, &C::Zero)).collect())),
            (TyK::Struct(fs, _), C::Agg(v)) => V::A(Rc::new(fs.iter().zip(v).map(|(f, x)| self.cval(*f, x)).collect())),
            (TyK::Array(n, e), C::Zero) | (TyK::Vec(n, e), C::Zero) => { let z = self.cval(*e, &C::Zero); V::A(Rc::new(vec![z; *n as usize])) }
            (TyK::Array(_, e), C::Agg(v)) | (TyK::Vec(_, e), C::Agg(v)) => V::A(Rc::new(v.iter().map(|x| self.cval(*e, x)).collect())),
            (TyK::Array(_, _), C::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            _ => { let v = self.const_val(t, c); let w = self.m.types.borrow().bits(t); self.mkc(v, w) }
        }
    }
    fn mkc(&mut self, v: u128, w: u32) -> V { if w <= 64 { V::I((v & mask(w)) as u64) } else { V::S(self.x.c(w, v)) } }
    fn refresh_consts(&mut self) {
        let n = self.m.consts.borrow().len();
        while self.nconst < n {
            let (t, c) = self.m.consts.borrow()[self.nconst].clone();
            let v = self.cval(t, &c);
            self.consts.push(v);
            self.nconst += 1;
        }
    }
    #[inline] pub fn ex(&mut self, v: &V, w: u32) -> E { match v { V::I(k) => self.x.c(w, *k as u128), V::S(e) => *e, V::U => self.x.c(w, 0), V::A(_) => panic!("aggregate as scalar") } }
    #[inline] fn vx(&self, e: E) -> V { if self.x.w(e) <= 64 { if let Some(k) = self.x.cv(e) { return V::I(k as u64) } } V::S(e) }

    // ------------------------------------------------------------ path condition
    fn model_eval(&mut self, st: &State, e: E) -> u128 {
        if self.ev_id != st.model_id { self.ev.clear(); self.ev_id = st.model_id }
        self.x.eval(e, &st.model, &mut self.ev)
    }
    fn slice(&mut self, st: &State, seed: E) -> Vec<E> {
        let mut have: std::collections::HashSet<u32> = self.x.vars(seed).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] { continue }
                let vs = self.x.vars(c);
                if vs.iter().any(|v| have.contains(v)) {
                    used[i] = true; out.push(c);
                    for v in vs.iter() { if have.insert(*v) { ch = true } }
                }
            }
            if !ch { break }
        }
        out
    }
    fn set_known(&mut self, st: &mut State, c: E, truth: bool) {
        let n = self.x.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, truth as u128);
        k.insert(n, !truth as u128);
        // equalities pin values; conjunctions split
        let nd = self.x.n(c);
        match nd.op {
            O::Eq if truth => { if let Some(v) = self.x.cv(nd.b) { k.insert(nd.a, v); } else if let Some(v) = self.x.cv(nd.a) { k.insert(nd.b, v); } }
            O::And if truth => { self.set_known(st, nd.a, true); self.set_known(st, nd.b, true) }
            O::Or if !truth => { self.set_known(st, nd.a, false); self.set_known(st, nd.b, false) }
            O::Not => { let a = nd.a; if !Rc::make_mut(&mut st.known).contains_key(&a) { self.set_known(st, a, !truth) } }
            _ => {}
        }
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions so that slicing works
        let mut q = vec![c];
        while let Some(c) = q.pop() {
            if self.x.cv(c) == Some(1) { continue }
            let n = self.x.n(c);
            if n.op == O::And { q.push(n.b); q.push(n.a); continue }
            if n.op == O::Not { let i = self.x.n(n.a); if i.op == O::Or { let (a, b) = (self.x.not(i.a), self.x.not(i.b)); q.push(b); q.push(a); continue } }
            if st.pc.contains(&c) { continue }
            st.pc.push(c);
        }
        if st.pc.len() > self.r.max_pc { self.r.max_pc = st.pc.len() }
    }
    fn merge_model(&mut self, st: &mut State, m: &[(u32, u128)]) {
        let mut v = (*st.model).clone();
        for (i, k) in m { while v.len() <= *i as usize { v.push(0) } v[*i as usize] = *k }
        st.model = Rc::new(v);
        self.model_ctr += 1;
        st.model_id = self.model_ctr;
    }
    fn known(&mut self, st: &State, e: E) -> Option<u128> {
        if let Some(k) = self.x.cv(e) { return Some(k) }
        st.known.get(&e).copied()
    }
    /// Decide a width-1 expression in this state; forks when both outcomes are feasible.
    pub fn decide(&mut self, st: &mut State, c: E) -> Res<bool> {
        let c = self.simp_known(st, c, 4);
        if let Some(k) = self.known(st, c) { return Ok(k != 0) }
        let v = self.model_eval(st, c) != 0;
        let (this, other) = if v { (c, self.x.not(c)) } else { (self.x.not(c), c) };
        let mut cons = self.slice(st, other);
        cons.push(other);
        let t0 = Instant::now();
        let r = self.s.check(&mut self.x, &cons);
        if self.o.verbose && t0.elapsed().as_millis() > 300 { eprintln!("slow at {:?}", self.stack_of(st)) }
        match r {
            R::Unsat => { self.set_known(st, this, true); Ok(v) }
            R::Unknown if self.out_of_time() => Err(Stop::Limit("time limit".into())),
            R::Unknown => { *self.r.incomplete.entry("solver gave no answer within its time limit".into()).or_default() += 1; self.push_pc(st, this); self.set_known(st, this, true); Ok(v) }
            R::Sat(m) => {
                let mut sib = st.clone();
                self.push_pc(&mut sib, other);
                self.set_known(&mut sib, other, true);
                self.merge_model(&mut sib, &m);
                sib.depth += 1;
                self.r.forks += 1;
                self.work.push(sib);
                self.push_pc(st, this);
                self.set_known(st, this, true);
                st.depth += 1;
                Ok(v)
            }
        }
    }
    fn simp_known(&mut self, st: &State, e: E, d: u32) -> E {
        if let Some(k) = st.known.get(&e) { let w = self.x.w(e); return self.x.c(w, *k) }
        if d == 0 { return e }
        let n = self.x.n(e);
        match n.op {
            O::Ite => { if let Some(k) = self.known(st, n.a) { let t = if k != 0 { n.b } else { n.c }; return self.simp_known(st, t, d) } e }
            O::And | O::Or if n.w == 1 => { let (a, b) = (self.simp_known(st, n.a, d - 1), self.simp_known(st, n.b, d - 1)); if a != n.a || b != n.b { if n.op == O::And { self.x.and(a, b) } else { self.x.or(a, b) } } else { e } }
            O::Not if n.w == 1 => { let a = self.simp_known(st, n.a, d - 1); if a != n.a { self.x.not(a) } else { e } }
            O::Eq | O::Ult | O::Ule | O::Slt | O::Sle => { let (a, b) = (self.simp_known(st, n.a, d - 1), self.simp_known(st, n.b, d - 1)); if a != n.a || b != n.b { self.x.bin(n.op, a, b) } else { e } }
            O::ZExt => { let a = self.simp_known(st, n.a, d - 1); if a != n.a { self.x.zext(a, n.w as u32) } else { e } }
            O::Extract => { let a = self.simp_known(st, n.a, d - 1); if a != n.a { self.x.extract(a, n.k as u32, n.w as u32) } else { e } }
            O::Concat => { let (a, b) = (self.simp_known(st, n.a, d - 1), self.simp_known(st, n.b, d - 1)); if a != n.a || b != n.b { self.x.concat(a, b) } else { e } }
            O::Add | O::Sub => { let (a, b) = (self.simp_known(st, n.a, d - 1), self.simp_known(st, n.b, d - 1)); if a != n.a || b != n.b { self.x.bin(n.op, a, b) } else { e } }
            _ => e,
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> Res<()> {
        self.r.assumes += 1;
        let c = self.simp_known(st, c, 4);
        if let Some(k) = self.known(st, c) { return if k != 0 { Ok(()) } else { Err(Stop::Infeasible) } }
        if self.model_eval(st, c) != 0 { self.push_pc(st, c); self.set_known(st, c, true); return Ok(()) }
        let mut cons = self.slice(st, c);
        cons.push(c);
        match self.s.check(&mut self.x, &cons) {
            R::Unsat => Err(Stop::Infeasible),
            R::Unknown => Err(Stop::Limit("solver gave no answer on an assumption".into())),
            R::Sat(m) => { self.push_pc(st, c); self.set_known(st, c, true); self.merge_model(st, &m); Ok(()) }
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> Res<u64> {
        match v {
            V::I(k) => Ok(*k), V::U => Ok(0), V::A(_) => Err(Stop::Unsupported("aggregate concretize".into())),
            V::S(e) => {
                let e = self.simp_known(st, *e, 6);
                if let Some(k) = self.known(st, e) { return Ok(k as u64) }
                let k = self.model_eval(st, e);
                let kc = self.x.c(w, k);
                let c = self.x.eq(e, kc);
                if self.decide(st, c)? { Rc::make_mut(&mut st.known).insert(e, k); Ok(k as u64) } else { Err(Stop::Unsupported("concretize".into())) }
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn find<'b>(&'b self, st: &'b State, a: u64) -> Option<(u64, &'b Rc<Obj>)> {
        if a < HBASE {
            if let Some((b, o)) = self.cmap.range(..=a).next_back() { if a - b < o.size.max(1) || a - b == o.size { if a - b < o.size { return Some((*b, o)) } } }
        }
        if let Some((b, o)) = st.mem.range(..=a).next_back() { if a - b < o.size { return Some((*b, o)) } }
        None
    }
    fn describe(&self, st: &State, a: u64) -> String {
        match st.mem.range(..=a).next_back() { Some((b, o)) => format!("{:#x} (nearest object {:#x}+{} size {} kind {})", a, b, a - b, o.size, o.kind as char), None => format!("{:#x}", a) }
    }
    fn load_n(&mut self, st: &State, a: u64, n: u64) -> Res<V> {
        let r = {
            let (b, o) = match self.find(st, a) { Some(x) => x, None => return Err(Stop::Ub(format!("read of {} bytes at {}", n, self.describe(st, a)))) };
            let off = (a - b) as usize;
            if off as u64 + n > o.size { return Err(Stop::Ub(format!("read of {} bytes at {}", n, self.describe(st, a)))) }
            match &o.sym {
                Some(s) if s[off..off + n as usize].iter().any(|x| *x != 0) => Err((o.data[off..off + n as usize].to_vec(), s[off..off + n as usize].to_vec())),
                _ => { if n <= 8 { let mut k = [0u8; 8]; k[..n as usize].copy_from_slice(&o.data[off..off + n as usize]); Ok(u64::from_le_bytes(k) as u128) } else { let mut k = [0u8; 16]; k[..n as usize].copy_from_slice(&o.data[off..off + n as usize]); Ok(u128::from_le_bytes(k)) } }
            }
        };
        Ok(match r {
            Ok(k) => self.mkc(k, n as u32 * 8),
            Err((d, s)) => {
                let mut e = 0;
                // concat from most significant byte
                let mut i = n as usize;
                while i > 0 {
                    // bytes i-1, i-2, .. that are consecutive slices of one expression come back as one slice of it
                    let b = if s[i - 1] != 0 { let nd = self.x.n(s[i - 1]); if nd.op == O::Extract {
                        let mut lo = nd.k as u32; let mut len = 8; let mut j = i - 1;
                        while j > 0 && s[j - 1] != 0 { let p = self.x.n(s[j - 1]); if p.op == O::Extract && p.a == nd.a && p.k as u32 + 8 == lo { lo -= 8; len += 8; j -= 1 } else { break } }
                        i = j;
                        self.x.extract(nd.a, lo, len)
                    } else { i -= 1; s[i] } } else { i -= 1; self.x.c(8, d[i] as u128) };
                    e = if e == 0 { b } else { self.x.concat(e, b) };
                }
                self.vx(e)
            }
        })
    }
    fn obj_mut<'b>(st: &'b mut State, base: u64) -> &'b mut Obj { let m = Rc::make_mut(&mut st.mem); Rc::make_mut(m.get_mut(&base).unwrap()) }
    fn store_n(&mut self, st: &mut State, a: u64, v: &V, n: u64) -> Res<()> {
        let base = match st.mem.range(..=a).next_back() {
            Some((b, o)) if a - b < o.size && a - b + n <= o.size => *b,
            _ => { let c = self.find(st, a).is_some(); return Err(Stop::Ub(format!("write of {} bytes at {}{}", n, self.describe(st, a), if c { " (constant)" } else { "" }))) }
        };
        let off = (a - base) as usize;
        match v {
            V::I(k) => { let o = Self::obj_mut(st, base); let b = (*k as u128).to_le_bytes(); o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]); if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0) } }
            V::U => { let o = Self::obj_mut(st, base); o.data[off..off + n as usize].fill(0); if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0) } }
            V::S(e) => {
                let w = self.x.w(*e);
                let e = if w < n as u32 * 8 { self.x.zext(*e, n as u32 * 8) } else { *e };
                let bs: Vec<E> = (0..n as u32).map(|i| self.x.byte_of(e, i)).collect();
                let cs: Vec<Option<u128>> = bs.iter().map(|b| self.x.cv(*b)).collect();
                let o = Self::obj_mut(st, base);
                let sz = o.size as usize;
                let s = o.sym.get_or_insert_with(|| vec![0; sz]);
                for i in 0..n as usize { match cs[i] { Some(k) => { o.data[off + i] = k as u8; s[off + i] = 0 } None => s[off + i] = bs[i] } }
            }
            V::A(_) => return Err(Stop::Unsupported("store aggregate".into())),
        }
        Ok(())
    }
    /// Resolve a symbolic address to one object with an in-bounds symbolic offset, or to a concrete address.
    fn resolve(&mut self, st: &mut State, p: E, n: u64, write: bool) -> Res<Result<u64, (u64, E)>> {
        let p = self.simp_known(st, p, 6);
        if let Some(k) = self.known(st, p) { return Ok(Ok(k as u64)) }
        let a = self.model_eval(st, p) as u64;
        let (base, size) = match self.find(st, a) { Some((b, o)) => (b, o.size), None => return Err(Stop::Ub(format!("{} of {} bytes at symbolic address, e.g. {}", if write { "write" } else { "read" }, n, self.describe(st, a)))) };
        if size < n || a - base > size - n { return Err(Stop::Ub(format!("{} of {} bytes at {}", if write { "write" } else { "read" }, n, self.describe(st, a)))) }
        let bc = self.x.c(64, base as u128);
        let off = self.x.sub(p, bc);
        let lim = self.x.c(64, (size - n) as u128);
        let inb = self.x.bin(O::Ule, off, lim);
        if !self.decide(st, inb)? { return Err(Stop::Ub("resolve".into())) }
        if let Some(k) = self.known(st, off) { return Ok(Ok(base + k as u64)) }
        let (lo, hi) = self.x.rng[off as usize];
        let hi = hi.min((size - n) as u128) as u64; let lo = lo.min(hi as u128) as u64;
        let tz = self.x.low_zeros(off).min(12);
        let cnt = (hi >> tz) - (lo >> tz) + 1;
        if cnt > if write { self.o.mux_write } else { self.o.mux_read } {
            if !write && hi > 0 && self.affine(st, base, off, size - n, n).is_some() { return Ok(Err((base, off))) }
            let k = self.concretize(st, &V::S(p), 64)?;
            return Ok(Ok(k));
        }
        Ok(Err((base, off)))
    }
    fn mux(&mut self, st: &State, base: u64, off: E, tz: u32, bit: i32, acc: u64, lim: u64, n: u64) -> Res<E> {
        // value at base + idx<<tz where the bits above `bit` of idx are `acc`
        if bit < 0 { let a = acc << tz; let a = if a > lim { lim >> tz << tz } else { a }; let v = self.load_n(st, base + a, n)?; return Ok(self.ex(&v, n as u32 * 8)) }
        let hi_acc = acc | (1 << bit);
        let lo = self.mux(st, base, off, tz, bit - 1, acc, lim, n)?;
        if hi_acc << tz > lim { return Ok(lo) }
        let hi = self.mux(st, base, off, tz, bit - 1, hi_acc, lim, n)?;
        if lo == hi { return Ok(lo) }
        let c = self.x.extract(off, tz + bit as u32, 1);
        Ok(self.x.ite(c, hi, lo))
    }
    /// A table whose entries are the exclusive or of one constant per set bit of the index (a checksum table): the same sum
    /// over the symbolic bits.
    fn affine(&mut self, st: &State, base: u64, off: E, lim: u64, n: u64) -> Option<E> {
        if n > 8 { return None }
        let (lo, hi) = self.x.rng[off as usize];
        let (lo, hi) = (lo.min(lim as u128) as u64, hi.min(lim as u128) as u64);
        let k = self.x.c(64, lo as u128);
        let (off, base, lim) = (self.x.sub(off, k), base + lo, lim - lo);
        let tz = self.x.low_zeros(off).min(12);
        let bits = 64 - ((hi - lo) >> tz).leading_zeros();
        let (mut acc, mut vb) = (0u64, vec![]);
        for b in tz..tz + bits {
            let e = self.x.extract(off, b, 1);
            match self.x.cv(e) { Some(k) => acc |= (k as u64) << b, None => vb.push((b, e)) }
        }
        if vb.len() < 5 || vb.len() > 12 { return None }
        let mut vals: Vec<u64> = Vec::with_capacity(1 << vb.len());
        for m in 0..1u64 << vb.len() {
            let mut a = acc;
            for (i, (b, _)) in vb.iter().enumerate() { a |= (m >> i & 1) << b }
            if a > lim { return None }
            let v = match self.load_n(st, base + a, n) { Ok(V::I(v)) => v, _ => return None };
            if m & m.wrapping_sub(1) != 0 && v != vals[(m & (m - 1)) as usize] ^ vals[1 << m.trailing_zeros()] ^ vals[0] { return None }
            vals.push(v);
        }
        let w = n as u32 * 8;
        let mut r = self.x.c(w, vals[0] as u128);
        let z = self.x.c(w, 0);
        for (i, (_, e)) in vb.iter().enumerate() {
            let d = self.x.c(w, (vals[1 << i] ^ vals[0]) as u128);
            let t = self.x.ite(*e, d, z);
            r = self.x.xor(r, t);
        }
        if self.x.cv(r).is_none() { self.x.marked.insert(r, ()); }
        Some(r)
    }
    fn load_scalar(&mut self, st: &mut State, p: &V, n: u64) -> Res<V> {
        match p {
            V::I(a) => self.load_n(st, *a, n),
            V::U => Err(Stop::Ub("load through undef".into())),
            V::S(e) => match self.resolve(st, *e, n, false)? {
                Ok(a) => self.load_n(st, a, n),
                Err((base, off)) => {
                    let size = self.find(st, base).unwrap().1.size;
                    let tz = self.x.low_zeros(off).min(12);
                    let hi = (self.x.rng[off as usize].1.min((size - n) as u128) as u64) >> tz;
                    let bits = 64 - hi.leading_zeros() as i32;
                    if bits >= 5 { if let Some(e) = self.affine(st, base, off, size - n, n) { return Ok(self.vx(e)) } }
                    let e = self.mux(st, base, off, tz, bits - 1, 0, size - n, n)?;
                    Ok(self.vx(e))
                }
            },
            V::A(_) => Err(Stop::Unsupported("vector pointer".into())),
        }
    }
    fn store_scalar(&mut self, st: &mut State, p: &V, v: &V, n: u64) -> Res<()> {
        match p {
            V::I(a) => self.store_n(st, *a, v, n),
            V::U => Err(Stop::Ub("store through undef".into())),
            V::S(e) => match self.resolve(st, *e, n, true)? {
                Ok(a) => self.store_n(st, a, v, n),
                Err((base, off)) => {
                    let size = match st.mem.get(&base) { Some(o) => o.size, None => return Err(Stop::Ub("write to constant".into())) };
                    let tz = self.x.low_zeros(off).min(12);
                    let (lo, hi) = self.x.rng[off as usize];
                    let hi = hi.min((size - n) as u128) as u64; let lo = lo.min(hi as u128) as u64;
                    let ve = self.ex(v, n as u32 * 8);
                    let mut k = lo >> tz << tz;
                    while k <= hi {
                        let kc = self.x.c(64, k as u128);
                        let c = self.x.eq(off, kc);
                        if self.x.cv(c) != Some(0) {
                            let old = self.load_n(st, base + k, n)?;
                            let oe = self.ex(&old, n as u32 * 8);
                            let nv = self.x.ite(c, ve, oe);
                            let nv = self.vx(nv);
                            self.store_n(st, base + k, &nv, n)?;
                        }
                        k += 1 << tz;
                    }
                    Ok(())
                }
            },
            V::A(_) => Err(Stop::Unsupported("vector pointer".into())),
        }
    }
    fn padd(&mut self, p: &V, o: u64) -> V { match p { V::I(a) => V::I(a.wrapping_add(o)), V::S(e) => { let k = self.x.c(64, o as u128); let r = self.x.add(*e, k); self.vx(r) } x => x.clone() } }
    fn load_ty(&mut self, st: &mut State, t: Ty, p: &V) -> Res<V> {
        let k = self.m.types.borrow().k(t).clone();
        match k {
            TyK::Struct(fs, _) => { let offs = self.m.types.borrow().t[t as usize].offs.clone(); let mut v = vec![]; for (i, f) in fs.iter().enumerate() { let q = self.padd(p, offs[i]); v.push(self.load_ty(st, *f, &q)?) } Ok(V::A(Rc::new(v))) }
            TyK::Array(n, e) => { let s = self.m.types.borrow().size(e); let mut v = vec![]; for i in 0..n { let q = self.padd(p, i * s); v.push(self.load_ty(st, e, &q)?) } Ok(V::A(Rc::new(v))) }
            TyK::Vec(n, e) => {
                let eb = self.m.types.borrow().bits(e);
                if eb % 8 == 0 { let mut v = vec![]; for i in 0..n { let q = self.padd(p, i * eb as u64 / 8); v.push(self.load_ty(st, e, &q)?) } Ok(V::A(Rc::new(v))) }
                else { let nb = (n * eb as u64 + 7) / 8; let x = self.load_scalar(st, p, nb)?; let xe = self.ex(&x, nb as u32 * 8); Ok(V::A(Rc::new((0..n as u32).map(|i| { let b = self.x.extract(xe, i * eb, eb); self.vx(b) }).collect()))) }
            }
            _ => {
                let w = self.m.types.borrow().bits(t);
                let n = (w as u64 + 7) / 8;
                let v = self.load_scalar(st, p, n)?;
                if w as u64 == n * 8 { return Ok(v) }
                match v { V::I(k) => Ok(V::I(k & mask(w) as u64)), V::S(e) => { let r = self.x.extract(e, 0, w); Ok(self.vx(r)) } v => Ok(v) }
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, t: Ty, v: &V, p: &V) -> Res<()> {
        let k = self.m.types.borrow().k(t).clone();
        match k {
            TyK::Struct(fs, _) => { let offs = self.m.types.borrow().t[t as usize].offs.clone(); for (i, f) in fs.iter().enumerate() { let q = self.padd(p, offs[i]); let x = agg_get(v, i); self.store_ty(st, *f, &x, &q)? } Ok(()) }
            TyK::Array(n, e) => { let s = self.m.types.borrow().size(e); for i in 0..n { let q = self.padd(p, i * s); let x = agg_get(v, i as usize); self.store_ty(st, e, &x, &q)? } Ok(()) }
            TyK::Vec(n, e) => {
                let eb = self.m.types.borrow().bits(e);
                if eb % 8 == 0 { for i in 0..n { let q = self.padd(p, i * eb as u64 / 8); let x = agg_get(v, i as usize); self.store_ty(st, e, &x, &q)? } Ok(()) }
                else { let b = self.vec_bits(v, n, eb); let nb = (n * eb as u64 + 7) / 8; let b = self.x.zext(b, nb as u32 * 8); let b = self.vx(b); self.store_scalar(st, p, &b, nb) }
            }
            _ => {
                let w = self.m.types.borrow().bits(t);
                let n = (w as u64 + 7) / 8;
                let v2 = match v { V::S(e) if (w as u64) < n * 8 => { let r = self.x.zext(*e, n as u32 * 8); self.vx(r) } x => x.clone() };
                self.store_scalar(st, p, &v2, n)
            }
        }
    }
    fn vec_bits(&mut self, v: &V, n: u64, eb: u32) -> E {
        let mut e = 0;
        for i in (0..n as usize).rev() { let x = agg_get(v, i); let b = self.ex(&x, eb); e = if e == 0 { b } else { self.x.concat(e, b) } }
        e
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8) -> u64 {
        let al = align.max(16);
        let p = if kind == b's' { &mut st.sp } else { &mut st.heap };
        let a = (*p + al - 1) / al * al;
        *p = a + size.max(1) + 16;
        Rc::make_mut(&mut st.mem).insert(a, Rc::new(Obj::new(size.max(if kind == b's' { 1 } else { 0 }), kind)));
        if kind == b'h' { st.live_heap += size as i64 }
        a
    }
    fn free(&mut self, st: &mut State, a: u64) -> Res<()> {
        match st.mem.get(&a) { Some(o) if o.kind == b'h' => { st.live_heap -= o.size as i64; Rc::make_mut(&mut st.mem).remove(&a); Ok(()) } _ => Err(Stop::Ub(format!("free of {}", self.describe(st, a)))) }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 { return Ok(()) }
        let (data, sym) = {
            let (b, o) = match self.find(st, s) { Some(x) => x, None => return Err(Stop::Ub(format!("copy of {} bytes from {}", n, self.describe(st, s)))) };
            let off = (s - b) as usize;
            if off as u64 + n > o.size { return Err(Stop::Ub(format!("copy of {} bytes from {}", n, self.describe(st, s)))) }
            (o.data[off..off + n as usize].to_vec(), o.sym.as_ref().and_then(|v| if v[off..off + n as usize].iter().any(|x| *x != 0) { Some(v[off..off + n as usize].to_vec()) } else { None }))
        };
        let base = match st.mem.range(..=d).next_back() { Some((b, o)) if d - b + n <= o.size => *b, _ => return Err(Stop::Ub(format!("copy of {} bytes to {}", n, self.describe(st, d)))) };
        let off = (d - base) as usize;
        let o = Self::obj_mut(st, base);
        o.data[off..off + n as usize].copy_from_slice(&data);
        match sym {
            Some(sv) => { let sz = o.size as usize; o.sym.get_or_insert_with(|| vec![0; sz])[off..off + n as usize].copy_from_slice(&sv) }
            None => if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0) },
        }
        Ok(())
    }
    pub fn read_cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n { if let Ok(V::I(b)) = self.load_n(st, p + i, 1) { s.push(b as u8) } else { s.push(b'?') } }
        String::from_utf8_lossy(&s).into_owned()
    }
    fn panic_info(&mut self, st: &State, args: &[V]) -> (String, String) {
        let ld = |me: &mut Self, a: u64, n: u64| -> u64 { match me.load_n(st, a, n) { Ok(V::I(k)) => k, _ => 0 } };
        let mut msg = String::new(); let mut loc = String::new();
        if args.len() >= 3 {
            if let (V::I(t), V::I(a)) = (&args[0], &args[1]) {
                if a & 1 == 1 { let n = a >> 1; msg = self.read_cstr(st, *t, n.min(300)) } else {
                    let mut p = *t; let mut guard = 0;
                    loop {
                        guard += 1; if guard > 200 { break }
                        let b = ld(self, p, 1); p += 1;
                        if b == 0 { break }
                        if b < 0x80 { msg += &self.read_cstr(st, p, b); p += b }
                        else if b == 0x80 { let n = ld(self, p, 2); p += 2; msg += &self.read_cstr(st, p, n.min(400)); p += n }
                        else { msg += "{}"; if b & 1 != 0 { p += 4 } if b & 2 != 0 { p += 2 } if b & 4 != 0 { p += 2 } if b & 8 != 0 { p += 2 } }
                    }
                }
            }
        }
        if let Some(V::I(l)) = args.last() {
            let fp = ld(self, *l, 8); let fl = ld(self, *l + 8, 8); let line = ld(self, *l + 16, 4);
            if fl < 400 && fl > 0 { loc = format!("{}:{}", self.read_cstr(st, fp, fl).trim_end_matches('\0'), line); }
        }
        (msg, loc)
    }

    // ------------------------------------------------------------ exploration
    pub fn inputs_of(&mut self, st: &State) -> Vec<(String, u32, u128)> {
        st.inputs.iter().map(|(v, n)| (n.to_string(), self.x.var_width[*v as usize] as u32, st.model.get(*v as usize).copied().unwrap_or(0) & mask(self.x.var_width[*v as usize] as u32))).collect()
    }
    fn stack_of(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(14).map(|f| self.m.funcs[f.f as usize].name.clone()).collect() }
    fn sample_of(&mut self, st: &State, outcome: &str) -> Sample {
        let inputs = self.inputs_of(st);
        let tr = st.trace.clone();
        let trace = tr.iter().map(|v| match v { V::I(k) => *k as u128, V::S(e) => self.model_eval(st, *e), _ => 0 }).collect();
        Sample { inputs, trace, covers: st.covers.iter().map(|s| s.to_string()).collect(), outcome: outcome.into() }
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String, loc: String) {
        let v = Violation { kind: kind.into(), msg, loc, stack: self.stack_of(st), inputs: self.inputs_of(st) };
        if self.o.verbose { eprintln!("violation {:?}", v) }
        if !self.r.violations.iter().any(|w| w.kind == v.kind && w.msg == v.msg && w.loc == v.loc) { self.r.violations.push(v); }
        if self.r.violations.len() >= self.o.max_viol { self.stop_all = true }
    }
    pub fn out_of_time(&self) -> bool { self.start.elapsed().as_secs_f64() > self.o.time }
    pub fn finish(&mut self, mut st: State, why: Stop) {
        self.r.steps += st.steps;
        if let Stop::Panic { msg, loc } = &why {
            // unwinding to the innermost __sx_try
            if let Some(k) = st.frames.iter().rposition(|f| f.is_try) {
                while st.frames.len() > k + 1 { let f = st.frames.pop().unwrap(); self.drop_allocas(&mut st, &f); }
                let f = st.frames.pop().unwrap();
                self.drop_allocas(&mut st, &f);
                st.sp = f.sp;
                self.r.panics_caught += 1;
                let _ = (msg, loc);
                if let Some(top) = st.frames.last_mut() { let t = Rc::make_mut(top); if f.dst != NODST { t.regs[f.dst as usize] = V::I(1) } t.ip += 1; }
                st.steps = 0;
                self.work.push(st);
                return;
            }
        }
        match why {
            Stop::Infeasible => { self.r.infeasible += 1; return }
            Stop::Done => {
                self.r.paths += 1;
                // reservoir: early ones plus spread
                let want = self.r.samples.len() < self.o.samples || self.r.paths.is_power_of_two() && self.r.samples.len() < self.o.samples * 2;
                if want { let s = self.sample_of(&st, "done"); self.r.samples.push(s) }
                for c in st.covers.iter() {
                    let e = self.r.covers.entry(c.to_string()).or_insert((0, None));
                    e.0 += 1;
                    if e.1.is_none() { let s = self.sample_of(&st, "done"); self.r.covers.get_mut(&c.to_string()).unwrap().1 = Some(s) }
                }
            }
            Stop::Panic { msg, loc } => { self.r.paths += 1; self.violation(&st, "panic", msg, loc) }
            Stop::Abort(m) => { self.r.paths += 1; self.violation(&st, "abort", m, String::new()) }
            Stop::Ub(m) => { self.r.paths += 1; self.violation(&st, "memory", m, String::new()) }
            Stop::Unsupported(m) => { let s = self.stack_of(&st); let m2 = format!("unsupported: {} in {:?}", m, s.iter().take(6).collect::<Vec<_>>()); *self.r.incomplete.entry(m2).or_default() += 1 }
            Stop::Limit(m) => { *self.r.incomplete.entry(m).or_default() += 1 }
        }
    }
    pub fn run_state(&mut self, mut st: State) {
        let depth0 = self.work.len();
        let _ = depth0;
        let r = self.run(&mut st);
        self.finish(st, r);
    }
    pub fn explore(&mut self) {
        loop {
            if self.work.len() > 1 { if let Some(f) = self.split { f(self) } }
            let Some(st) = self.work.pop() else { break };
            if self.stop_all { break }
            if self.out_of_time() { *self.r.incomplete.entry("time limit".into()).or_default() += 1; break }
            if !self.shared_stop.is_null() && unsafe { (*self.shared_stop).load(std::sync::atomic::Ordering::Relaxed) } != 0 { self.stop_all = true; break }
            self.run_state(st);
        }
    }
    fn drop_allocas(&mut self, st: &mut State, f: &Frame) { if !f.allocas.is_empty() { let m = Rc::make_mut(&mut st.mem); for a in &f.allocas { m.remove(a); } } }

    fn val(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    V::S(e) => {
                        let e = *e;
                        if let Some(k) = st.known.get(&e) { let w = self.x.w(e); let k = *k; return self.mkc(k, w) }
                        let n = self.x.n(e);
                        if n.op == O::Ite { if let Some(k) = st.known.get(&n.a) { let t = if *k != 0 { n.b } else { n.c }; return self.vx(t) } }
                        V::S(e)
                    }
                    v => v.clone(),
                }
            }
            Opd::K(k) => { if *k as usize >= self.nconst { self.refresh_consts() } self.consts[*k as usize].clone() }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let (body, from) = { let f = st.frames.last().unwrap(); (f.body.clone(), f.blk) };
        let b = &body.blocks[to as usize];
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
        for (dst, _, ins) in &b.phis {
            let o = &ins.iter().find(|(p, _)| *p == from).expect("phi pred").1;
            let v = self.val(st, o);
            vals.push((*dst, v));
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals { f.regs[d as usize] = v }
        f.blk = to; f.ip = 0;
    }
    fn run(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3fff == 0 { if self.out_of_time() { return Stop::Limit("time limit".into()) } }
            st.steps += 1;
            if st.steps > self.o.steps { return Stop::Limit(format!("step limit per path in {:?}", self.stack_of(st).iter().take(4).collect::<Vec<_>>())) }
            match self.step(st) { Ok(()) => {} Err(s) => return s }
        }
    }
    fn set(&mut self, st: &mut State, dst: u32, v: V) { let f = Rc::make_mut(st.frames.last_mut().unwrap()); if dst != NODST { f.regs[dst as usize] = v } f.ip += 1 }
    fn step(&mut self, st: &mut State) -> Res<()> {
        let body = st.frames.last().unwrap().body.clone();
        let (bk, ip) = { let f = st.frames.last().unwrap(); (f.blk, f.ip) };
        let ins = &body.blocks[bk as usize].insts[ip as usize];
        let dst = ins.dst;
        match &ins.i {
            I::Bin(b, t, x, y) => { let (a, c) = (self.val(st, x), self.val(st, y)); let v = self.binop(st, *b, *t, &a, &c)?; self.set(st, dst, v) }
            I::ICmp(p, t, x, y) => { let (a, c) = (self.val(st, x), self.val(st, y)); let v = self.icmp(*p, *t, &a, &c); self.set(st, dst, v) }
            I::FNeg(t, x) => { let a = self.val(st, x); let w = self.m.types.borrow().bits(*t); let v = match a { V::I(k) => V::I(k ^ (1 << (w - 1))), V::S(e) => { let k = self.x.c(w, 1u128 << (w - 1)); let r = self.x.xor(e, k); self.vx(r) } V::U => V::U, V::A(_) => return Err(Stop::Unsupported("fneg vec".into())) }; self.set(st, dst, v) }
            I::FCmp(p, t, x, y) => { let (a, c) = (self.val(st, x), self.val(st, y)); let v = self.fcmp(p, *t, &a, &c)?; self.set(st, dst, v) }
            I::Load(t, p) => { let a = self.val(st, p); let v = self.load_ty(st, *t, &a)?; self.set(st, dst, v) }
            I::Store(t, v, p) => { let (x, a) = (self.val(st, v), self.val(st, p)); self.store_ty(st, *t, &x, &a)?; self.set(st, NODST, V::U) }
            I::Alloca(sz, n, nt) => { let k = self.val(st, n); let w = self.m.types.borrow().bits(*nt); let k = self.concretize(st, &k, w)?; let a = self.alloc(st, sz * k, 16, b's'); Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a); self.set(st, dst, V::I(a)) }
            I::Gep(_, base, off, sc) => {
                let b = self.val(st, base);
                let mut v = match b { V::A(_) => return Err(Stop::Unsupported("vector gep".into())), V::U => V::I(0), x => x };
                if *off != 0 { v = self.padd(&v, *off) }
                for (o, t, s) in sc {
                    let i = self.val(st, o);
                    let w = self.m.types.borrow().bits(*t);
                    v = match (&v, &i) {
                        (V::I(a), V::I(k)) => V::I(a.wrapping_add((sx(*k as u128, w) as u64).wrapping_mul(*s))),
                        (_, V::U) => v,
                        _ => { let ie = self.ex(&i, w); let ie = self.x.sext(ie, 64); let se = self.x.c(64, *s as u128); let m = self.x.mul(ie, se); let be = self.ex(&v, 64); let r = self.x.add(be, m); self.vx(r) }
                    };
                }
                self.set(st, dst, v)
            }
            I::Cast(c, ft, v, tt) => { let a = self.val(st, v); let r = self.cast(*c, *ft, *tt, &a)?; self.set(st, dst, r) }
            I::Select(ct, c, t, x, y) => {
                let cv = self.val(st, c); let (a, b) = (self.val(st, x), self.val(st, y));
                let r = if let TyK::Vec(n, _) = self.m.types.borrow().k(*ct).clone() {
                    let TyK::Vec(_, et) = self.m.types.borrow().k(*t).clone() else { return Err(Stop::Unsupported("select vec".into())) };
                    let mut o = vec![]; for i in 0..n as usize { let q = self.sel(et, &agg_get(&cv, i), &agg_get(&a, i), &agg_get(&b, i)); o.push(q) } V::A(Rc::new(o))
                } else { 
                    if let V::S(ce) = cv { if matches!(a, V::A(_)) || matches!(b, V::A(_)) { let k = self.decide(st, ce)?; if k { a } else { b } } else { self.sel(*t, &cv, &a, &b) } } else { self.sel(*t, &cv, &a, &b) }
                };
                self.set(st, dst, r)
            }
            I::ExtractValue(v, _, ix) => { let mut a = self.val(st, v); for i in ix { a = agg_get(&a, *i as usize) } self.set(st, dst, a) }
            I::InsertValue(v, t, y, _, ix) => { let a = self.val(st, v); let b = self.val(st, y); let r = self.insert(*t, &a, b, ix); self.set(st, dst, r) }
            I::ExtractElement(_, v, i) => { let a = self.val(st, v); let k = self.val(st, i); let k = self.concretize(st, &k, 64)?; let r = agg_get(&a, k as usize); self.set(st, dst, r) }
            I::InsertElement(t, v, y, i) => { let a = self.val(st, v); let b = self.val(st, y); let k = self.val(st, i); let k = self.concretize(st, &k, 64)?; let r = self.insert(*t, &a, b, &[k as u32]); self.set(st, dst, r) }
            I::Shuffle(t, v, y, mk) => { let a = self.val(st, v); let b = self.val(st, y); let n = match self.m.types.borrow().k(*t) { TyK::Vec(n, _) => *n as usize, _ => 0 }; let r = mk.iter().map(|i| if *i < 0 { V::U } else if (*i as usize) < n { agg_get(&a, *i as usize) } else { agg_get(&b, *i as usize - n) }).collect(); self.set(st, dst, V::A(Rc::new(r))) }
            I::Freeze(v) => { let a = self.val(st, v); self.set(st, dst, a) }
            I::Fence => self.set(st, NODST, V::U),
            I::CmpXchg(t, p, x, y) => {
                let (pv, a, b) = (self.val(st, p), self.val(st, x), self.val(st, y));
                let old = self.load_ty(st, *t, &pv)?;
                let eq = self.icmp(IP::Eq, *t, &old, &a);
                let nv = self.sel(*t, &eq, &b, &old);
                self.store_ty(st, *t, &nv, &pv)?;
                self.set(st, dst, V::A(Rc::new(vec![old, eq])))
            }
            I::AtomicRmw(o, t, p, x) => {
                let (pv, a) = (self.val(st, p), self.val(st, x));
                let old = self.load_ty(st, *t, &pv)?;
                let w = self.m.types.borrow().bits(*t);
                let nv = match o.as_str() {
                    "xchg" => a.clone(), "add" => self.binop(st, B::Add, *t, &old, &a)?, "sub" => self.binop(st, B::Sub, *t, &old, &a)?, "and" => self.binop(st, B::And, *t, &old, &a)?, "or" => self.binop(st, B::Or, *t, &old, &a)?, "xor" => self.binop(st, B::Xor, *t, &old, &a)?,
                    "nand" => { let r = self.binop(st, B::And, *t, &old, &a)?; let e = self.ex(&r, w); let e = self.x.not(e); self.vx(e) }
                    "max" => { let c = self.icmp(IP::Sgt, *t, &old, &a); self.sel(*t, &c, &old, &a) } "min" => { let c = self.icmp(IP::Slt, *t, &old, &a); self.sel(*t, &c, &old, &a) }
                    "umax" => { let c = self.icmp(IP::Ugt, *t, &old, &a); self.sel(*t, &c, &old, &a) } "umin" => { let c = self.icmp(IP::Ult, *t, &old, &a); self.sel(*t, &c, &old, &a) }
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store_ty(st, *t, &nv, &pv)?;
                self.set(st, dst, old)
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, x, y) => {
                let cv = self.val(st, c);
                let k = match cv { V::I(k) => k != 0, V::U => false, V::S(e) => self.decide(st, e)?, V::A(_) => return Err(Stop::Unsupported("br agg".into())) };
                let t = if k { *x } else { *y };
                self.jump(st, t)
            }
            I::Switch(t, v, d, cs) => {
                let a = self.val(st, v);
                match a {
                    V::S(e) if self.x.cv(e).is_none() => {
                        let w = self.m.types.borrow().bits(*t);
                        let e = self.simp_known(st, e, 4);
                        let k = match self.known(st, e) { Some(k) => k, None => self.model_eval(st, e) };
                        let tgt = cs.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*d);
                        let mut cond = self.x.c(1, 0);
                        if tgt != *d { for (c, b) in cs { if *b == tgt { let kc = self.x.c(w, *c); let q = self.x.eq(e, kc); cond = self.x.or(cond, q) } } }
                        else { cond = self.x.c(1, 1); for (c, b) in cs { if *b != *d { let kc = self.x.c(w, *c); let q = self.x.eq(e, kc); let q = self.x.not(q); cond = self.x.and(cond, q) } } }
                        if !self.decide(st, cond)? { return Err(Stop::Unsupported("switch decide".into())) }
                        self.jump(st, tgt)
                    }
                    _ => {
                        let k = match a { V::I(k) => k as u128, V::S(e) => self.x.cv(e).unwrap(), _ => 0 };
                        let tgt = cs.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*d);
                        self.jump(st, tgt)
                    }
                }
            }
            I::Ret(v) => {
                let rv = match v { Some((_, o)) => self.val(st, o), None => V::U };
                let f = st.frames.pop().unwrap();
                self.drop_allocas(st, &f);
                st.sp = f.sp;
                if st.frames.is_empty() { return Err(Stop::Done) }
                let rv = if f.is_try { V::I(0) } else { rv };
                self.set(st, f.dst, rv);
            }
            I::Unreachable => return Err(Stop::Ub(format!("reached unreachable in {}", self.m.funcs[st.frames.last().unwrap().f as usize].name))),
            I::Call(rt, callee, args) => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => { let p = self.val(st, o); let a = self.concretize(st, &p, 64)?; if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 { return Err(Stop::Ub(format!("call to {:#x}", a))) } ((a - FBASE) / 16) as u32 }
                };
                let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
                let sp = self.fspecial[f as usize];
                if sp != Sp::None { return self.special(st, sp, f, &av, args, *rt, dst) }
                self.push_call(st, f, av, dst, false)?;
            }
        }
        Ok(())
    }
    fn push_call(&mut self, st: &mut State, f: u32, av: Vec<V>, dst: u32, is_try: bool) -> Res<()> {
        let body = match self.m.body(f) { Some(b) => b, None => return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[f as usize].name))) };
        self.r.funcs.insert(f);
        let mut av = av;
        // with the parameter `digits=0` a number that is not known is written as 0 (text is not what such a check is about)
        if self.fmtint[f as usize] != 0 && self.digits == 0 {
            if let Some(V::I(a)) = av.first() { if matches!(self.load_n(st, *a, self.fmtint[f as usize]), Ok(V::S(_))) { av[0] = V::I(self.errno + 64) } }
        }
        if st.frames.len() > 2000 { return Err(Stop::Limit("call depth".into())) }
        let mut regs = vec![V::U; body.nregs as usize];
        for (i, a) in av.into_iter().enumerate() { if i < body.nparams as usize { regs[i] = a } }
        let fr = Frame { f, body, regs, blk: 0, ip: 0, dst, allocas: vec![], sp: st.sp, is_try };
        st.frames.push(Rc::new(fr));
        Ok(())
    }
    fn sel(&mut self, t: Ty, c: &V, a: &V, b: &V) -> V {
        match c {
            V::I(k) => if *k != 0 { a.clone() } else { b.clone() }, V::U => b.clone(),
            V::S(ce) => {
                if let TyK::Vec(n, et) = self.m.types.borrow().k(t).clone() { return V::A(Rc::new((0..n as usize).map(|i| self.sel(et, c, &agg_get(a, i), &agg_get(b, i))).collect())) }
                let w = self.m.types.borrow().bits(t); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.x.ite(*ce, x, y); self.vx(r)
            }
            V::A(_) => V::U,
        }
    }
    fn insert(&mut self, t: Ty, a: &V, b: V, ix: &[u32]) -> V {
        if ix.is_empty() { return b }
        let k = self.m.types.borrow().k(t).clone();
        let (n, et) = match &k { TyK::Struct(fs, _) => (fs.len(), fs[ix[0] as usize]), TyK::Array(n, e) | TyK::Vec(n, e) => (*n as usize, *e), _ => (0, 0) };
        let mut v = match a { V::A(v) => (**v).clone(), _ => vec![V::U; n] };
        if (ix[0] as usize) < v.len() { let old = v[ix[0] as usize].clone(); v[ix[0] as usize] = self.insert(et, &old, b, &ix[1..]); }
        V::A(Rc::new(v))
    }
    fn binop(&mut self, st: &mut State, b: B, t: Ty, x: &V, y: &V) -> Res<V> {
        let k = self.m.types.borrow().k(t).clone();
        if let TyK::Vec(n, e) = k { let mut v = vec![]; for i in 0..n as usize { v.push(self.binop(st, b, e, &agg_get(x, i), &agg_get(y, i))?) } return Ok(V::A(Rc::new(v))) }
        let w = self.m.types.borrow().bits(t);
        let op = match b { B::Add => O::Add, B::Sub => O::Sub, B::Mul => O::Mul, B::UDiv => O::UDiv, B::SDiv => O::SDiv, B::URem => O::URem, B::SRem => O::SRem, B::And => O::And, B::Or => O::Or, B::Xor => O::Xor, B::Shl => O::Shl, B::LShr => O::LShr, B::AShr => O::AShr, B::FAdd => O::FAdd, B::FSub => O::FSub, B::FMul => O::FMul, B::FDiv => O::FDiv, B::FRem => O::FRem };
        if let (V::I(p), V::I(q)) = (x, y) {
            if w == 64 { match b { B::Add => return Ok(V::I(p.wrapping_add(*q))), B::Sub => return Ok(V::I(p.wrapping_sub(*q))), B::And => return Ok(V::I(p & q)), B::Or => return Ok(V::I(p | q)), B::Xor => return Ok(V::I(p ^ q)), B::Mul => return Ok(V::I(p.wrapping_mul(*q))), _ => {} } }
            if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) && *q == 0 { return Err(Stop::Ub("division by zero".into())) }
            return Ok(V::I(fold(op, w, w, *p as u128, *q as u128, 0).unwrap() as u64));
        }
        let (p, q) = (self.ex(x, w), self.ex(y, w));
        let (p, q) = (self.top_known(st, p), self.top_known(st, q));
        let r = self.x.bin(op, p, q);
        Ok(self.vx(r))
    }
    fn top_known(&mut self, st: &State, e: E) -> E { if let Some(k) = st.known.get(&e) { let w = self.x.w(e); return self.x.c(w, *k) } e }
    fn icmp(&mut self, p: IP, t: Ty, x: &V, y: &V) -> V {
        let k = self.m.types.borrow().k(t).clone();
        if let TyK::Vec(n, e) = k { return V::A(Rc::new((0..n as usize).map(|i| self.icmp(p, e, &agg_get(x, i), &agg_get(y, i))).collect())) }
        let w = self.m.types.borrow().bits(t);
        if let (V::I(a), V::I(b)) = (x, y) {
            let (sa, sb) = (sx(*a as u128, w), sx(*b as u128, w));
            return V::I(match p { IP::Eq => a == b, IP::Ne => a != b, IP::Ugt => a > b, IP::Uge => a >= b, IP::Ult => a < b, IP::Ule => a <= b, IP::Sgt => sa > sb, IP::Sge => sa >= sb, IP::Slt => sa < sb, IP::Sle => sa <= sb } as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = match p {
            IP::Eq => self.x.eq(a, b), IP::Ne => { let r = self.x.eq(a, b); self.x.not(r) }
            IP::Ult => self.x.ult(a, b), IP::Ugt => self.x.ult(b, a), IP::Ule => { let r = self.x.ult(b, a); self.x.not(r) } IP::Uge => { let r = self.x.ult(a, b); self.x.not(r) }
            IP::Slt => self.x.slt(a, b), IP::Sgt => self.x.slt(b, a), IP::Sle => { let r = self.x.slt(b, a); self.x.not(r) } IP::Sge => { let r = self.x.slt(a, b); self.x.not(r) }
        };
        self.vx(r)
    }
    fn fcmp(&mut self, p: &str, t: Ty, x: &V, y: &V) -> Res<V> {
        let k = self.m.types.borrow().k(t).clone();
        if let TyK::Vec(n, e) = k { let mut v = vec![]; for i in 0..n as usize { v.push(self.fcmp(p, e, &agg_get(x, i), &agg_get(y, i))?) } return Ok(V::A(Rc::new(v))) }
        let w = self.m.types.borrow().bits(t);
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let (base, neg_unordered) = match p { "true" => return Ok(V::I(1)), "false" => return Ok(V::I(0)), "ord" => { let u = self.x.bin(O::FUno, a, b); let r = self.x.not(u); return Ok(self.vx(r)) } "uno" => { let u = self.x.bin(O::FUno, a, b); return Ok(self.vx(u)) } _ => (&p[1..], p.starts_with('u')) };
        let r = match base {
            "eq" => self.x.bin(O::FEq, a, b), "lt" => self.x.bin(O::FLt, a, b), "le" => self.x.bin(O::FLe, a, b), "gt" => self.x.bin(O::FLt, b, a), "ge" => self.x.bin(O::FLe, b, a),
            "ne" => { let e = self.x.bin(O::FEq, a, b); let n = self.x.not(e); if neg_unordered { return Ok(self.vx(n)) } let u = self.x.bin(O::FUno, a, b); let o = self.x.not(u); let r = self.x.and(n, o); return Ok(self.vx(r)) }
            _ => return Err(Stop::Unsupported(format!("fcmp {}", p))),
        };
        let r = if neg_unordered { let u = self.x.bin(O::FUno, a, b); self.x.or(r, u) } else { r };
        Ok(self.vx(r))
    }
    fn cast(&mut self, c: Cast, ft: Ty, tt: Ty, v: &V) -> Res<V> {
        let (fk, tk) = (self.m.types.borrow().k(ft).clone(), self.m.types.borrow().k(tt).clone());
        if c == Cast::BitCast {
            let (fv, tv) = (matches!(fk, TyK::Vec(..)), matches!(tk, TyK::Vec(..)));
            if !fv && !tv { return Ok(v.clone()) }
            if matches!(v, V::U) { return Ok(V::U) }
            let bits = if let TyK::Vec(n, e) = fk { let eb = self.m.types.borrow().bits(e); if n * eb as u64 > 128 { return Err(Stop::Unsupported("wide bitcast".into())) } self.vec_bits(v, n, eb) } else { let w = self.m.types.borrow().bits(ft); self.ex(v, w) };
            if let TyK::Vec(n, e) = tk { let eb = self.m.types.borrow().bits(e); return Ok(V::A(Rc::new((0..n as u32).map(|i| { let b = self.x.extract(bits, i * eb, eb); self.vx(b) }).collect()))) }
            return Ok(self.vx(bits));
        }
        if let (TyK::Vec(n, fe), TyK::Vec(_, te)) = (&fk, &tk) { let mut o = vec![]; for i in 0..*n as usize { o.push(self.cast(c, *fe, *te, &agg_get(v, i))?) } return Ok(V::A(Rc::new(o))) }
        let (fw, tw) = (self.m.types.borrow().bits(ft), self.m.types.borrow().bits(tt));
        if let V::U = v { return Ok(V::U) }
        if let V::I(k) = v {
            if tw <= 64 { match c {
                Cast::Trunc => return Ok(V::I(*k & mask(tw) as u64)), Cast::ZExt => return Ok(V::I(*k)),
                Cast::PtrToInt | Cast::IntToPtr => return Ok(V::I(*k & mask(tw) as u64)),
                Cast::SExt => return Ok(V::I((sx(*k as u128, fw) as u128 & mask(tw)) as u64)), _ => {} } }
        }
        let e = self.ex(v, fw);
        let r = match c {
            Cast::Trunc => self.x.extract(e, 0, tw), Cast::ZExt => self.x.zext(e, tw), Cast::SExt => self.x.sext(e, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw == fw { e } else if tw < fw { self.x.extract(e, 0, tw) } else { self.x.zext(e, tw) },
            Cast::FpToUi => self.x.fun1(O::FToU, tw, e), Cast::FpToSi => self.x.fun1(O::FToS, tw, e),
            Cast::UiToFp => self.x.fun1(O::UToF, tw, e), Cast::SiToFp => self.x.fun1(O::SToF, tw, e),
            Cast::FpTrunc | Cast::FpExt => self.x.fun1(O::FToF, tw, e),
            Cast::BitCast => e,
        };
        Ok(self.vx(r))
    }
    fn cmp_bytes(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> Res<V> {
        // from the last byte to the first
        let mut r = self.x.c(32, 0);
        for i in (0..n).rev() {
            let (p, q) = (self.load_n(st, a + i, 1)?, self.load_n(st, b + i, 1)?);
            if let (V::I(p), V::I(q)) = (&p, &q) { if p == q { continue } r = if eq_only { self.x.c(32, 1) } else { self.x.c(32, if p < q { 0xffffffff } else { 1 }) }; continue }
            let (pe, qe) = (self.ex(&p, 8), self.ex(&q, 8));
            let eq = self.x.eq(pe, qe);
            let ne = if eq_only { self.x.c(32, 1) } else { let lt = self.x.ult(pe, qe); let (m1, p1) = (self.x.c(32, 0xffffffff), self.x.c(32, 1)); self.x.ite(lt, m1, p1) };
            r = self.x.ite(eq, r, ne);
        }
        Ok(self.vx(r))
    }
    fn special(&mut self, st: &mut State, sp: Sp, f: u32, av: &[V], args: &[(Ty, Opd)], rt: Ty, dst: u32) -> Res<()> {
        macro_rules! conc { ($i:expr) => { self.concretize(st, &av[$i], 64)? } }
        let ret = match sp {
            Sp::None => unreachable!(),
            Sp::Nop | Sp::Zero => V::I(0),
            Sp::Alloc | Sp::AllocZ => { let n = conc!(0); let al = conc!(1); if n > 1 << 30 { return Err(Stop::Panic { msg: format!("allocation of {} bytes", n), loc: String::new() }) } V::I(self.alloc(st, n, al, b'h')) }
            Sp::Malloc => { let n = conc!(0); V::I(self.alloc(st, n, 16, b'h')) }
            Sp::Calloc => { let n = conc!(0); let k = conc!(1); V::I(self.alloc(st, n * k, 16, b'h')) }
            Sp::PosixMemalign => { let p = conc!(0); let al = conc!(1); let n = conc!(2); let a = self.alloc(st, n, al, b'h'); self.store_n(st, p, &V::I(a), 8)?; V::I(0) }
            Sp::Dealloc | Sp::Free => { let p = conc!(0); if p != 0 { self.free(st, p)? } V::I(0) }
            Sp::Realloc | Sp::ReallocC => {
                let p = conc!(0); let (old, al, n) = if sp == Sp::Realloc { (conc!(1), conc!(2), conc!(3)) } else { let n = conc!(1); (st.mem.get(&p).map(|o| o.size).unwrap_or(0), 16, n) };
                if n > 1 << 30 { return Err(Stop::Panic { msg: format!("allocation of {} bytes", n), loc: String::new() }) }
                let a = self.alloc(st, n, al, b'h'); self.memcpy(st, a, p, old.min(n))?; if p != 0 { self.free(st, p)? } V::I(a)
            }
            Sp::Bcmp | Sp::Memcmp => { let a = conc!(0); let b = conc!(1); let n = conc!(2); self.cmp_bytes(st, a, b, n, sp == Sp::Bcmp)? }
            Sp::Strlen => { let a = conc!(0); let mut n = 0; loop { let b = self.load_n(st, a + n, 1)?; let b = self.concretize(st, &b, 8)?; if b == 0 { break } n += 1 } V::I(n) }
            Sp::Memcpy => { let d = conc!(0); let s = conc!(1); let n = conc!(2); self.memcpy(st, d, s, n)?; V::I(d) }
            Sp::Memset => { let d = conc!(0); let n = conc!(2); self.memset(st, d, &av[1].clone(), n)?; V::I(d) }
            Sp::RandKeys => V::A(Rc::new(vec![V::I(0x0123456789abcdef), V::I(0xfedcba9876543210)])),
            Sp::GetRandom => { let p = conc!(0); let n = conc!(1); for i in 0..n { self.store_n(st, p + i, &V::I(((i * 37 + 11) & 255) as u64), 1)? } V::I(n) }
            Sp::PanicFmt => { let (msg, loc) = self.panic_info(st, av); return Err(Stop::Panic { msg, loc }) }
            Sp::PanicStr => return Err(Stop::Panic { msg: self.m.funcs[f as usize].name.clone(), loc: String::new() }),
            Sp::Abort => return Err(Stop::Abort(self.m.funcs[f as usize].name.clone())),
            Sp::ErrnoLoc => V::I(self.errno),
            Sp::PthreadSelf => V::I(1),
            Sp::ClockGettime => { let p = conc!(1); self.store_n(st, p, &V::I(1_700_000_000), 8)?; self.store_n(st, p + 8, &V::I(0), 8)?; V::I(0) }
            Sp::Syscall => V::I(0),
            Sp::Write => av[2].clone(),
            Sp::ThreadSpawn | Sp::SxAnd => return Err(Stop::Unsupported("thread".into())),
            Sp::SxSym => {
                let w = conc!(0) as u32; let p = conc!(1); let n = conc!(2);
                let name = self.read_cstr(st, p, n);
                let e = self.input(st, &name, w);
                let e = self.x.zext(e, 64); self.vx(e)
            }
            Sp::SxRange => { // lo, hi, name: symbolic u64 in [lo, hi]
                let lo = conc!(0); let hi = conc!(1); let p = conc!(2); let n = conc!(3);
                let name = self.read_cstr(st, p, n);
                if lo == hi { V::I(lo) } else {
                    // a narrow variable keeps ranges tight
                    let span = hi.wrapping_sub(lo);
                    let w = (64 - span.leading_zeros()).max(1);
                    let e = self.input(st, &name, w);
                    let sc = self.x.c(w, span as u128);
                    let c = self.x.bin(O::Ule, e, sc);
                    self.assume_input(st, c)?;
                    let e = self.x.zext(e, 64); let l = self.x.c(64, lo as u128); let r = self.x.add(e, l); self.vx(r)
                }
            }
            Sp::SxAssume => { let e = self.ex(&av[0], 1); self.assume(st, e)?; V::U }
            Sp::SxAssert => {
                let p = conc!(1); let n = conc!(2);
                self.r.asserts += 1;
                let e = self.ex(&av[0], 1);
                let e = self.simp_known(st, e, 4);
                let k = self.known(st, e);
                if k == Some(0) { let m = self.read_cstr(st, p, n); self.violation(st, "assert", m, String::new()); return Err(Stop::Infeasible) }
                if k.is_none() {
                    self.r.asserts_sym += 1;
                    let ne = self.x.not(e);
                    let mut cons = self.slice(st, ne); cons.push(ne);
                    match self.s.check(&mut self.x, &cons) {
                        R::Unsat => { self.set_known(st, e, true) }
                        R::Unknown => { let m = self.read_cstr(st, p, n); *self.r.incomplete.entry(format!("assertion {:?} undecided within the solver time limit", m)).or_default() += 1; return Err(Stop::Infeasible) }
                        R::Sat(m) => {
                            let mut bad = st.clone(); self.merge_model(&mut bad, &m);
                            let msg = self.read_cstr(st, p, n);
                            self.violation(&bad, "assert", msg, String::new());
                            self.assume(st, e)?;
                        }
                    }
                }
                V::U
            }
            Sp::SxFail => { let p = conc!(0); let n = conc!(1); self.r.asserts += 1; let m = self.read_cstr(st, p, n); self.violation(st, "assert", m, String::new()); return Err(Stop::Infeasible) }
            Sp::SxStop => return Err(Stop::Done),
            Sp::SxCover => { let p = conc!(0); let n = conc!(1); let m = self.read_cstr(st, p, n); st.covers.insert(m.into()); V::U }
            Sp::SxConc => { let k = conc!(0); V::I(k) }
            Sp::SxIsSym => V::I(matches!(av[0], V::S(_)) as u64),
            Sp::SxIte => { let c = self.ex(&av[0], 1); let (a, b) = (self.ex(&av[1], 64), self.ex(&av[2], 64)); let r = self.x.ite(c, a, b); self.vx(r) }
            Sp::SxTrace => { st.trace.push(av[0].clone()); V::U }
            Sp::SxLive => V::I(st.live_heap as u64),
            Sp::SxParam => { let p = conc!(0); let n = conc!(1); let d = conc!(2); let m = self.read_cstr(st, p, n); V::I(*self.o.params.get(&m).unwrap_or(&d)) }
            Sp::SxDbg => { let e = self.ex(&av[0], 64); eprintln!("dbg {}", self.x.show(e, 8)); V::U }
            Sp::SxTry => {
                let a = conc!(0);
                if a < FBASE { return Err(Stop::Ub("try target".into())) }
                let g = ((a - FBASE) / 16) as u32;
                return self.push_call(st, g, vec![av[1].clone()], dst, true);
            }
            Sp::Intr => { let v = self.intrinsic(st, f, av, args, rt)?; v }
        };
        self.set(st, dst, ret);
        Ok(())
    }
    fn input(&mut self, st: &mut State, name: &str, w: u32) -> E {
        let idx = st.inputs.len();
        let key = (idx, name.to_string(), w);
        let e = match self.vartab.get(&key) { Some(e) => *e, None => { let e = self.x.var(&format!("{}#{}", name, idx), w); self.vartab.insert(key, e); e } };
        let vid = self.x.n(e).a;
        st.inputs.push((vid, name.into()));
        e
    }
    /// constraint that only restricts a fresh input: keep the model valid without a query where possible
    fn assume_input(&mut self, st: &mut State, c: E) -> Res<()> { let r = self.assume(st, c); self.r.assumes -= 1; r }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> Res<()> {
        if n == 0 { return Ok(()) }
        match v {
            V::I(k) => {
                let base = match st.mem.range(..=d).next_back() { Some((b, o)) if d - b + n <= o.size => *b, _ => return Err(Stop::Ub(format!("set of {} bytes at {}", n, self.describe(st, d)))) };
                let off = (d - base) as usize; let o = Self::obj_mut(st, base);
                o.data[off..off + n as usize].fill(*k as u8); if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0) }
            }
            V::S(e) => { let b = self.x.extract(*e, 0, 8.min(self.x.w(*e))); let b = self.vx(b); for i in 0..n { self.store_n(st, d + i, &b, 1)? } }
            _ => { for i in 0..n { self.store_n(st, d + i, &V::I(0), 1)? } }
        }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, f: u32, av: &[V], args: &[(Ty, Opd)], rt: Ty) -> Res<V> {
        let name = self.intr[f as usize].clone();
        let n = &name[5..];
        // vector forms: map
        let rk = self.m.types.borrow().k(rt).clone();
        if let TyK::Vec(cnt, et) = rk {
            if n.starts_with("vector.") { return Err(Stop::Unsupported(name)) }
            let ets: Vec<Ty> = args.iter().map(|(t, _)| match self.m.types.borrow().k(*t) { TyK::Vec(_, e) => *e, _ => *t }).collect();
            let mut o = vec![];
            for i in 0..cnt as usize {
                let a2: Vec<V> = av.iter().zip(args).map(|(v, (t, _))| if matches!(self.m.types.borrow().k(*t), TyK::Vec(..)) { agg_get(v, i) } else { v.clone() }).collect();
                let ar2: Vec<(Ty, Opd)> = ets.iter().map(|t| (*t, Opd::K(0))).collect();
                o.push(self.intrinsic_scalar(st, n, &a2, &ar2, et)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        self.intrinsic_scalar(st, n, av, args, rt)
    }
    fn intrinsic_scalar(&mut self, st: &mut State, n: &str, av: &[V], args: &[(Ty, Opd)], rt: Ty) -> Res<V> {
        let base = n.split('.').next().unwrap();
        let w = if args.is_empty() { 0 } else { self.m.types.borrow().bits(args[0].0) };
        let two = n.splitn(3, '.').take(2).collect::<Vec<_>>().join(".");
        macro_rules! e { ($i:expr) => { self.ex(&av[$i], w) } }
        Ok(match base {
            "memcpy" | "memmove" => { let d = self.concretize(st, &av[0], 64)?; let s = self.concretize(st, &av[1], 64)?; let k = self.concretize(st, &av[2], 64)?; self.memcpy(st, d, s, k)?; V::U }
            "memset" => { let d = self.concretize(st, &av[0], 64)?; let k = self.concretize(st, &av[2], 64)?; self.memset(st, d, &av[1], k)?; V::U }
            "umax" | "umin" | "smax" | "smin" => { let t = args[0].0; let p = match base { "umax" => IP::Ugt, "umin" => IP::Ult, "smax" => IP::Sgt, _ => IP::Slt }; let c = self.icmp(p, t, &av[0], &av[1]); self.sel(t, &c, &av[0], &av[1]) }
            "abs" => { let t = args[0].0; let z = self.mkc(0, w); let c = self.icmp(IP::Slt, t, &av[0], &z); let a = e!(0); let zz = self.x.c(w, 0); let ng = self.x.sub(zz, a); let ng = self.vx(ng); self.sel(t, &c, &ng, &av[0]) }
            "ctpop" => { let a = e!(0); if let Some(k) = self.x.cv(a) { return Ok(self.mkc(k.count_ones() as u128, w)) } let mut r = self.x.c(w, 0); for i in 0..w { let b = self.x.extract(a, i, 1); let b = self.x.zext(b, w); r = self.x.add(r, b) } self.vx(r) }
            "ctlz" | "cttz" => {
                let a = e!(0);
                if let Some(k) = self.x.cv(a) { let r = if base == "ctlz" { (k << (128 - w)).leading_zeros().min(w) } else { if k == 0 { w } else { k.trailing_zeros() } }; return Ok(self.mkc(r as u128, w)) }
                let mut r = self.x.c(w, w as u128);
                for j in 0..w { let i = if base == "ctlz" { j } else { w - 1 - j }; let b = self.x.extract(a, i, 1); let k = self.x.c(w, if base == "ctlz" { w - 1 - i } else { i } as u128); r = self.x.ite(b, k, r) }
                self.vx(r)
            }
            "bswap" => { let a = e!(0); let mut r = 0; for i in 0..w / 8 { let b = self.x.extract(a, i * 8, 8); r = if r == 0 { b } else { self.x.concat(r, b) } } self.vx(r) }
            "bitreverse" => { let a = e!(0); let mut r = 0; for i in 0..w { let b = self.x.extract(a, i, 1); r = if r == 0 { b } else { self.x.concat(r, b) } } self.vx(r) }
            "fshl" | "fshr" => {
                let (a, b, s) = (e!(0), e!(1), e!(2));
                if let Some(k) = self.x.cv(s) {
                    let k = (k % w as u128) as u32;
                    if k == 0 { return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() }) }
                    let l = if base == "fshl" { k } else { w - k };
                    let hi = self.x.extract(a, 0, w - l); let lo = self.x.extract(b, w - l, l); let r = self.x.concat(hi, lo); return Ok(self.vx(r));
                }
                let wc = self.x.c(w, w as u128 - 1); let k = self.x.and(s, wc); // w is a power of two
                if !w.is_power_of_two() { return Err(Stop::Unsupported("fsh width".into())) }
                let wfull = self.x.c(w, w as u128); let inv = self.x.sub(wfull, k);
                let r = if base == "fshl" { let p = self.x.shift(O::Shl, a, k); let q = self.x.shift(O::LShr, b, inv); self.x.or(p, q) } else { let p = self.x.shift(O::Shl, a, inv); let q = self.x.shift(O::LShr, b, k); self.x.or(p, q) };
                self.vx(r)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let (a, b) = (e!(0), e!(1));
                let sat = two.ends_with(".sat");
                let signed = base.starts_with('s');
                let op = &base[1..];
                let r = match op { "add" => self.x.add(a, b), "sub" => self.x.sub(a, b), _ => self.x.mul(a, b) };
                let ov = match (signed, op) {
                    (false, "add") => self.x.ult(r, a),
                    (false, "sub") => self.x.ult(a, b),
                    (true, "add") => { let (sa, sb, sr) = (self.x.extract(a, w - 1, 1), self.x.extract(b, w - 1, 1), self.x.extract(r, w - 1, 1)); let p = self.x.xor(sa, sr); let q = self.x.xor(sb, sr); self.x.and(p, q) }
                    (true, "sub") => { let (sa, sb, sr) = (self.x.extract(a, w - 1, 1), self.x.extract(b, w - 1, 1), self.x.extract(r, w - 1, 1)); let p = self.x.xor(sa, sb); let q = self.x.xor(sa, sr); self.x.and(p, q) }
                    (false, _) => {
                        if w > 64 { return Err(Stop::Unsupported("umul.with.overflow wide".into())) }
                        // unsigned overflow: for a constant factor a comparison suffices
                        let (kc, ot) = match (self.x.cv(a), self.x.cv(b)) { (_, Some(k)) => (Some(k), a), (Some(k), _) => (Some(k), b), _ => (None, a) };
                        match kc { Some(0) => self.x.c(1, 0), Some(k) => { let lim = self.x.c(w, mask(w) / k); self.x.ult(lim, ot) } None => { let (x, y) = (self.x.zext(a, 2 * w), self.x.zext(b, 2 * w)); let p = self.x.mul(x, y); let h = self.x.extract(p, w, w); let z = self.x.c(w, 0); let q = self.x.eq(h, z); self.x.not(q) } }
                    }
                    (true, _) => { if w > 64 { return Err(Stop::Unsupported("smul.with.overflow wide".into())) } 
                        let (kc, ot) = match (self.x.cv(a), self.x.cv(b)) { (_, Some(k)) => (Some(k), a), (Some(k), _) => (Some(k), b), _ => (None, a) };
                        match kc { Some(0) => self.x.c(1, 0), Some(k) if sx(k, w) > 0 => { let k = sx(k, w); let hi = self.x.c(w, ((mask(w - 1) as i128) / k) as u128); let lo = self.x.c(w, (-(1i128 << (w - 1)) / k) as u128); let p = self.x.slt(hi, ot); let q = self.x.slt(ot, lo); self.x.or(p, q) }
                        _ => { let (x, y) = (self.x.sext(a, 2 * w), self.x.sext(b, 2 * w)); let p = self.x.mul(x, y); let h = self.x.sext(r, 2 * w); let q = self.x.eq(h, p); self.x.not(q) } } }
                };
                if !sat { let (r, ov) = (self.vx(r), self.vx(ov)); V::A(Rc::new(vec![r, ov])) } else {
                    let lim = match (signed, op) { (false, "add") => self.x.c(w, mask(w)), (false, _) => self.x.c(w, 0), (true, _) => { let sa = self.x.extract(a, w - 1, 1); let (mn, mx) = (self.x.c(w, 1u128 << (w - 1)), self.x.c(w, mask(w - 1))); self.x.ite(sa, mn, mx) } };
                    let r = self.x.ite(ov, lim, r); self.vx(r)
                }
            }
            "ucmp" | "scmp" => {
                let (a, b) = (e!(0), e!(1)); let rw = self.m.types.borrow().bits(rt);
                let lt = if base == "ucmp" { self.x.ult(a, b) } else { self.x.slt(a, b) }; let eq = self.x.eq(a, b);
                let (m1, z, p1) = (self.x.c(rw, u128::MAX), self.x.c(rw, 0), self.x.c(rw, 1));
                let q = self.x.ite(eq, z, p1); let r = self.x.ite(lt, m1, q); self.vx(r)
            }
            "expect" | "ptrmask" if base == "expect" => av[0].clone(),
            "threadlocal" => av[0].clone(),
            "objectsize" => V::I(u64::MAX),
            "is" => V::I(0),
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Abort("llvm.trap".into())),
            "prefetch" | "va_start" | "stackrestore" | "sideeffect" => V::U,
            "stacksave" => V::I(0),
            "returnaddress" | "frameaddress" => V::I(0),
            "fabs" => { let a = e!(0); let k = self.x.c(w, mask(w - 1)); let r = self.x.and(a, k); self.vx(r) }
            "copysign" => { let (a, b) = (e!(0), e!(1)); let m = self.x.extract(a, 0, w - 1); let s = self.x.extract(b, w - 1, 1); let r = self.x.concat(s, m); self.vx(r) }
            "floor" => { let a = e!(0); let r = self.x.fun1(O::FRtn, w, a); self.vx(r) }
            "ceil" => { let a = e!(0); let r = self.x.fun1(O::FRtp, w, a); self.vx(r) }
            "trunc" => { let a = e!(0); let r = self.x.fun1(O::FRtz, w, a); self.vx(r) }
            "round" => { let a = e!(0); let r = self.x.fun1(O::FRna, w, a); self.vx(r) }
            "rint" | "nearbyint" | "roundeven" => { let a = e!(0); let r = self.x.fun1(O::FRne, w, a); self.vx(r) }
            "sqrt" => { let a = e!(0); let r = self.x.fun1(O::FSqrt, w, a); self.vx(r) }
            "fma" | "fmuladd" => { let (a, b, c) = (e!(0), e!(1), e!(2)); let r = if base == "fma" { self.x.fma(a, b, c) } else { let p = self.x.bin(O::FMul, a, b); self.x.bin(O::FAdd, p, c) }; self.vx(r) }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (a, b) = (e!(0), e!(1));
                let (na, nb) = (self.x.bin(O::FUno, a, a), self.x.bin(O::FUno, b, b));
                let lt = if base.starts_with("min") { self.x.bin(O::FLt, b, a) } else { self.x.bin(O::FLt, a, b) };
                let r = self.x.ite(lt, b, a); let r = self.x.ite(nb, a, r); let r = self.x.ite(na, b, r); self.vx(r)
            }
            "fptosi" | "fptoui" => { let a = e!(0); let rw = self.m.types.borrow().bits(rt); let r = self.x.fun1(if base == "fptosi" { O::FToS } else { O::FToU }, rw, a); self.vx(r) }
            "vector" => {
                // vector.reduce.<op>.<ty>
                let op = n.split('.').nth(2).unwrap_or("");
                let (cnt, et) = match self.m.types.borrow().k(args[0].0).clone() { TyK::Vec(c, e) => (c, e), _ => return Err(Stop::Unsupported(n.into())) };
                let ew = self.m.types.borrow().bits(et);
                let mut acc = agg_get(&av[0], 0);
                for i in 1..cnt as usize {
                    let y = agg_get(&av[0], i);
                    acc = match op { "add" => self.binop(st, B::Add, et, &acc, &y)?, "and" => self.binop(st, B::And, et, &acc, &y)?, "or" => self.binop(st, B::Or, et, &acc, &y)?, "xor" => self.binop(st, B::Xor, et, &acc, &y)?, "mul" => self.binop(st, B::Mul, et, &acc, &y)?,
                        "umax" | "umin" | "smax" | "smin" => { let p = match op { "umax" => IP::Ugt, "umin" => IP::Ult, "smax" => IP::Sgt, _ => IP::Slt }; let c = self.icmp(p, et, &acc, &y); self.sel(et, &c, &acc, &y) }
                        _ => return Err(Stop::Unsupported(n.into())) };
                }
                let _ = ew; acc
            }
            "pow" | "exp" | "log" | "log10" | "log2" | "sin" | "cos" | "powi" | "exp2" => {
                let a = e!(0);
                let k = match self.x.cv(a) { Some(k) => k, None => return Err(Stop::Unsupported(format!("symbolic {}", base))) };
                let b = if av.len() > 1 { let w1 = self.m.types.borrow().bits(args[1].0); let b = self.ex(&av[1], w1); match self.x.cv(b) { Some(k) => k, None => return Err(Stop::Unsupported(format!("symbolic {}", base))) } } else { 0 };
                if w == 64 { let x = f64::from_bits(k as u64); let r = match base { "pow" => x.powf(f64::from_bits(b as u64)), "powi" => x.powi(b as i32), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(), "sin" => x.sin(), _ => x.cos() }; V::I(r.to_bits()) }
                else { let x = f32::from_bits(k as u32); let r = match base { "pow" => x.powf(f32::from_bits(b as u32)), "powi" => x.powi(b as i32), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(), "sin" => x.sin(), _ => x.cos() }; V::I(r.to_bits() as u64) }
            }
            _ => return Err(Stop::Unsupported(format!("intrinsic llvm.{}", n))),
        })
    }
}
pub fn agg_get(v: &V, i: usize) -> V { match v { V::A(a) => a.get(i).cloned().unwrap_or(V::U), _ => V::U } }
