//! Hash-consed bit-vector expression DAG with local simplification.
//! Every node is a bit-vector of width 1..=128; Booleans are width-1 vectors.
//! Floats are bit-vectors too; float operators reinterpret their operands.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Not,
    Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt,
    Ite, Eq, Ult, Ule, Slt, Sle,
    // float ops; operand width gives the format (32 / 64)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma,
    FLt, FLe, FEq, FUno,
    FToS, FToU, SToF, UToF, FToF,
    FRne, FRtz, FRtp, FRtn, FRna,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: O, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub rng: Vec<(u128, u128)>,
    /// nesting depth of wide arithmetic
    pub adepth: Vec<u16>,
    lins: FxMap<E, Option<std::rc::Rc<Lin>>>, ulins: FxMap<E, Option<std::rc::Rc<Lin>>>, in_lin: u32,
    /// 1 = constant-leaf ite tree (including constants)
    pub ctree: Vec<bool>,
    tab: FxMap<Node, E>,
    pub var_names: Vec<String>,
    pub var_width: Vec<u16>,
    pub var_expr: Vec<E>,
    pub vars_memo: FxMap<E, std::rc::Rc<Vec<u32>>>,
    /// results of linear table lookups (checksums)
    pub marked: FxMap<E, ()>,
    forms: FxMap<E, Option<std::rc::Rc<Form>>>,
}
/// k ^ the exclusive or of the columns of the bits that are set.
#[derive(Clone, Default)]
pub struct Form { k: u128, at: Vec<(E, u128)> }
impl Form {
    fn add(&mut self, o: &Form) {
        self.k ^= o.k;
        let (a, b) = (std::mem::take(&mut self.at), &o.at);
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || i < a.len() && a[i].0 < b[j].0 { self.at.push(a[i]); i += 1 }
            else if i == a.len() || b[j].0 < a[i].0 { self.at.push(b[j]); j += 1 }
            else { let c = a[i].1 ^ b[j].1; if c != 0 { self.at.push((a[i].0, c)) } i += 1; j += 1 }
        }
    }
    fn map(&self, f: impl Fn(u128) -> u128) -> Form {
        Form { k: f(self.k), at: self.at.iter().map(|(e, c)| (*e, f(*c))).filter(|(_, c)| *c != 0).collect() }
    }
}

#[inline] pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }
const QNAN64: u128 = 0x7ff8000000000000;
const QNAN32: u128 = 0x7fc00000;
pub fn b64(x: f64) -> u128 { if x.is_nan() { QNAN64 } else { x.to_bits() as u128 } }
pub fn b32(x: f32) -> u128 { if x.is_nan() { QNAN32 } else { x.to_bits() as u128 } }

pub fn fold(op: O, w: u32, cw: u32, a: u128, b: u128, c: u128) -> Option<u128> {
    // w = result width, cw = operand (child a) width
    use O::*;
    let m = mask(w);
    let sh = |x: u128| if x >= cw as u128 { None } else { Some(x as u32) };
    Some(match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, cw), sx(b, cw)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
        SRem => { let (x, y) = (sx(a, cw), sx(b, cw)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } }
        And => a & b, Or => a | b, Xor => a ^ b, Not => !a & m,
        Shl => match sh(b) { Some(s) => (a << s) & m, None => 0 },
        LShr => match sh(b) { Some(s) => a >> s, None => 0 },
        AShr => match sh(b) { Some(s) => (sx(a, cw) >> s) as u128 & m, None => if sx(a, cw) < 0 { m } else { 0 } },
        ZExt => a,
        SExt => sx(a, cw) as u128 & m,
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sx(a, cw) < sx(b, cw)) as u128,
        Sle => (sx(a, cw) <= sx(b, cw)) as u128,
        Ite => if a != 0 { b } else { c },
        FAdd | FSub | FMul | FDiv | FRem => if w == 64 {
            let (x, y) = (f64b(a), f64b(b));
            b64(match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y })
        } else {
            let (x, y) = (f32b(a), f32b(b));
            b32(match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y })
        },
        FSqrt => if w == 64 { b64(f64b(a).sqrt()) } else { b32(f32b(a).sqrt()) },
        FFma => if w == 64 { b64(f64b(a).mul_add(f64b(b), f64b(c))) } else { b32(f32b(a).mul_add(f32b(b), f32b(c))) },
        FLt | FLe | FEq | FUno => {
            let (x, y) = if cw == 64 { (f64b(a), f64b(b)) } else { (f32b(a) as f64, f32b(b) as f64) };
            (match op { FLt => x < y, FLe => x <= y, FEq => x == y, _ => x.is_nan() || y.is_nan() }) as u128
        }
        // saturating conversions (Rust `as`)
        FToS => { let x = if cw == 64 { f64b(a) } else { f32b(a) as f64 };
            match w { 8 => (x as i8) as u8 as u128, 16 => (x as i16) as u16 as u128, 32 => (x as i32) as u32 as u128, 64 => (x as i64) as u64 as u128, 128 => (x as i128) as u128, _ => return None } }
        FToU => { let x = if cw == 64 { f64b(a) } else { f32b(a) as f64 };
            match w { 8 => (x as u8) as u128, 16 => (x as u16) as u128, 32 => (x as u32) as u128, 64 => (x as u64) as u128, 128 => x as u128, _ => return None } }
        SToF => { let x = sx(a, cw); if w == 64 { b64(x as f64) } else { b32(x as f32) } }
        UToF => if w == 64 { b64(a as f64) } else { b32(a as f32) },
        FToF => if w == 64 && cw == 32 { b64(f32b(a) as f64) } else if w == 32 && cw == 64 { b32(f64b(a) as f32) } else { return None },
        FRne | FRtz | FRtp | FRtn | FRna => if w == 64 { let x = f64b(a);
            b64(match op { FRne => x.round_ties_even(), FRtz => x.trunc(), FRtp => x.ceil(), FRtn => x.floor(), _ => x.round() }) } else { let x = f32b(a);
            b32(match op { FRne => x.round_ties_even(), FRtz => x.trunc(), FRtp => x.ceil(), FRtn => x.floor(), _ => x.round() }) },
        Const | Var | Concat | Extract => return None,
    })
}

/// An exact integer reading of a term: the term, read as a signed number, equals
/// sum(coef * atom) + k, without wrap-around.  An atom is a term read as unsigned (false) or signed (true).
#[derive(Clone, Debug)]
pub struct Lin { t: Vec<((E, bool), i128)>, k: i128, lo: i128, hi: i128 }
impl Lin {
    fn new(mut t: Vec<((E, bool), i128)>, k: i128, x: &Ctx) -> Option<Lin> {
        t.sort_unstable_by_key(|p| p.0);
        let mut o: Vec<((E, bool), i128)> = vec![];
        for (a, c) in t { match o.last_mut() { Some(l) if l.0 == a => l.1 = l.1.checked_add(c)?, _ => o.push((a, c)) } }
        o.retain(|p| p.1 != 0);
        if o.len() > 10 { return None }
        let (mut lo, mut hi) = (k, k);
        for (a, c) in &o {
            let (al, ah) = x.atom_range(*a);
            let (p, q) = (al.checked_mul(*c)?, ah.checked_mul(*c)?);
            lo = lo.checked_add(p.min(q))?; hi = hi.checked_add(p.max(q))?;
        }
        if lo < -(1i128 << 120) || hi > 1i128 << 120 { return None }
        Some(Lin { t: o, k, lo, hi })
    }
    fn scale(&self, c: i128, x: &Ctx) -> Option<Lin> { let mut t = self.t.clone(); for p in t.iter_mut() { p.1 = p.1.checked_mul(c)? } Lin::new(t, self.k.checked_mul(c)?, x) }
    fn plus(&self, o: &Lin, x: &Ctx) -> Option<Lin> { let mut t = self.t.clone(); t.extend(o.t.iter().copied()); Lin::new(t, self.k.checked_add(o.k)?, x) }
    fn fits(&self, w: u32) -> bool { w >= 128 || self.lo >= -(1i128 << (w - 1)) && self.hi < 1i128 << (w - 1) }
    fn gcd(&self) -> i128 { let mut g = 0i128; for p in &self.t { let (mut a, mut b) = (g, p.1.abs()); while b != 0 { let r = a % b; a = b; b = r } g = a } g }
    fn sbits(&self) -> u32 { for w in 1..122 { if self.fits(w) { return w } } 128 }
    fn ubits(&self) -> u32 { (128 - (self.hi as u128).leading_zeros()).max(1) }
    /// c * q + r with 0 <= r < c
    fn split(&self, c: i128, x: &Ctx) -> Option<(Lin, Lin)> {
        let (mut q, mut r) = (vec![], vec![]);
        for (a, k) in &self.t { if k % c == 0 { q.push((*a, k / c)) } else { r.push((*a, *k)) } }
        let q = Lin::new(q, self.k.div_euclid(c), x)?;
        let r = Lin::new(r, self.k.rem_euclid(c), x)?;
        if r.lo >= 0 && r.hi < c { Some((q, r)) } else { None }
    }
}

pub fn is_arith(n: &Node) -> bool { n.w >= 32 && matches!(n.op, O::Add | O::Sub | O::Mul | O::UDiv | O::SDiv | O::URem | O::SRem) }

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], rng: vec![], adepth: vec![0], lins: Default::default(), ulins: Default::default(), in_lin: 0, ctree: vec![], tab: Default::default(), var_names: vec![], var_width: vec![], var_expr: vec![], vars_memo: Default::default(), marked: Default::default(), forms: Default::default() };
        // id 0 reserved so that 0 can mean "no symbolic byte"
        c.nodes.push(Node { op: O::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.rng.push((0, 0));
        c.ctree.push(true);
        c
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == O::Const { Some(n.k) } else { None } }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.tab.get(&n) { return e; }
        let id = self.nodes.len() as E;
        let r = self.range_of(&n);
        if r.0 == r.1 && n.op != O::Const {
            // range analysis determined the value
            let e = self.c(n.w as u32, r.0);
            self.tab.insert(n, e);
            return e;
        }
        let ct = match n.op { O::Const => true, O::Ite => self.ctree[n.b as usize] && self.ctree[n.c as usize], _ => false };
        self.nodes.push(n);
        self.rng.push(r);
        let (ks, nk) = Self::kids(&n);
        let mut d = 0;
        for i in 0..nk { d = d.max(self.adepth[ks[i] as usize]) }
        self.adepth.push((d + is_arith(&n) as u16).min(60000));
        self.ctree.push(ct);
        self.tab.insert(n, id);
        if r == (0, mask(n.w as u32)) && n.w >= 8 && matches!(n.op, O::Add | O::Sub | O::Mul) {
            if let Some(l) = self.ulin(id) {
                if l.lo >= 0 && l.t.len() + 1 > 0 && !(l.t.len() == 1 && l.t[0].0 .0 == id) { self.rng[id as usize] = (l.lo as u128, l.hi as u128) }
                if l.lo == l.hi { let e = self.c(n.w as u32, l.lo as u128); self.tab.insert(n, e); return e }
            }
        }
        id
    }
    fn atom_range(&self, a: (E, bool)) -> (i128, i128) {
        let (l, h) = self.rng[a.0 as usize];
        let w = self.w(a.0);
        if a.1 { let half = 1i128 << (w.min(121) - 1); (-half, half - 1) } else if h < 1u128 << 121 { (l as i128, h as i128) } else { (0, 1i128 << 121) }
    }
    pub fn lin(&mut self, e: E) -> Option<std::rc::Rc<Lin>> { self.lin_d(e, 40) }
    fn lin_d(&mut self, e: E, d: u32) -> Option<std::rc::Rc<Lin>> {
        let n = self.n(e);
        let w = n.w as u32;
        if w > 120 || w < 2 { return None }
        if let Some(l) = self.lins.get(&e) { return l.clone() }
        let atom = |s: &Self| { let h = s.rng[e as usize].1; Lin::new(vec![((e, h >= 1u128 << (w - 1)), 1)], 0, s) };
        let r: Option<Lin> = if d == 0 { atom(self) } else { match n.op {
            O::Const => Lin::new(vec![], sx(n.k, w), self),
            O::ZExt => self.ulin_d(n.a, d - 1).map(|l| (*l).clone()),
            O::SExt if self.w(n.a) >= 2 => self.lin_d(n.a, d - 1).map(|l| (*l).clone()),
            O::Add | O::Sub => {
                let (p, q) = (self.lin_d(n.a, d - 1), self.lin_d(n.b, d - 1));
                match (p, q) { (Some(p), Some(q)) => { let q = if n.op == O::Sub { q.scale(-1, self) } else { Some((*q).clone()) }; q.and_then(|q| p.plus(&q, self)) } _ => None }.filter(|l| l.fits(w)).or_else(|| atom(self))
            }
            O::Mul => match (self.lin_d(n.a, d - 1), self.cv(n.b)) { (Some(p), Some(c)) => p.scale(sx(c, w), self), _ => None }.filter(|l| l.fits(w)).or_else(|| atom(self)),
            O::Shl => match (self.lin_d(n.a, d - 1), self.cv(n.b)) { (Some(p), Some(c)) if c < 64 && (c as u32) < w => p.scale(1i128 << c, self), _ => None }.filter(|l| l.fits(w)).or_else(|| atom(self)),
            O::Extract if n.k == 0 => self.lin_d(n.a, d - 1).map(|l| (*l).clone()).filter(|l| l.fits(w)).or_else(|| atom(self)),
            _ => atom(self),
        } };
        let r = r.map(std::rc::Rc::new);
        self.lins.insert(e, r.clone());
        r
    }
    /// as lin, for the term read as an unsigned number
    pub fn ulin(&mut self, e: E) -> Option<std::rc::Rc<Lin>> { self.ulin_d(e, 40) }
    fn ulin_d(&mut self, e: E, d: u32) -> Option<std::rc::Rc<Lin>> {
        let n = self.n(e);
        let w = n.w as u32;
        if w > 120 { return None }
        if let Some(l) = self.ulins.get(&e) { return l.clone() }
        let ok = |l: &Lin| l.lo >= 0 && l.hi < 1i128 << w;
        let r: Option<Lin> = if d == 0 || w < 2 { None } else { match n.op {
            O::Const => Lin::new(vec![], n.k as i128, self),
            O::ZExt => self.ulin_d(n.a, d - 1).map(|l| (*l).clone()),
            O::Add | O::Sub => match (self.ulin_d(n.a, d - 1), self.ulin_d(n.b, d - 1)) { (Some(p), Some(q)) => { let q = if n.op == O::Sub { q.scale(-1, self) } else { Some((*q).clone()) }; q.and_then(|q| p.plus(&q, self)) } _ => None },
            O::Mul => match (self.ulin_d(n.a, d - 1), self.cv(n.b)) { (Some(p), Some(c)) => p.scale(c as i128, self), _ => None },
            O::Shl => match (self.ulin_d(n.a, d - 1), self.cv(n.b)) { (Some(p), Some(c)) if c < 64 && (c as u32) < w => p.scale(1i128 << c, self), _ => None },
            O::Extract if n.k == 0 => self.ulin_d(n.a, d - 1).map(|l| (*l).clone()),
            _ => None,
        } }.filter(|l| ok(l));
        let r = match r { Some(l) => Some(l), None => match self.lin_d(e, d) { Some(l) if ok(&l) => Some((*l).clone()), _ => Lin::new(vec![((e, false), 1)], 0, self) } };
        let r = r.map(std::rc::Rc::new);
        self.ulins.insert(e, r.clone());
        r
    }
    /// the linear form as a term of width w (its value must fit, signed or unsigned)
    fn unlin(&mut self, l: &Lin, w: u32) -> E {
        let mut acc: Option<E> = None;
        let mut put = |s: &mut Self, a: (E, bool), c: i128| {
            let wa = s.w(a.0);
            let x = if wa >= w { s.extract(a.0, 0, w) } else if a.1 { s.sext(a.0, w) } else { s.zext(a.0, w) };
            let k = s.c(w, c.unsigned_abs() & mask(w));
            let m = s.mul(x, k);
            acc = Some(match acc { None => if c > 0 { m } else { let z = s.c(w, 0); s.sub(z, m) }, Some(y) => if c > 0 { s.add(y, m) } else { s.sub(y, m) } });
        };
        for (a, c) in &l.t { if *c > 0 { put(self, *a, *c) } }
        for (a, c) in &l.t { if *c < 0 { put(self, *a, *c) } }
        let k = self.c(w, l.k as u128 & mask(w));
        match acc { None => k, Some(y) => self.add(y, k) }
    }
    fn lin_div(&mut self, op: O, a: E, c: u128) -> Option<E> {
        let w = self.w(a);
        if self.in_lin > 6 || w < 4 { return None }
        let signed = matches!(op, O::SDiv | O::SRem);
        let c = if signed { sx(c, w) } else { c as i128 };
        if c <= 1 { return None }
        let l = if signed { self.lin(a)? } else { self.ulin(a)? };
        let div = matches!(op, O::UDiv | O::SDiv);
        self.in_lin += 1;
        let r = (|| {
            let g = l.t.iter().all(|p| p.1 % c == 0);
            if g && l.k % c == 0 { return Some(if div { let q = Lin::new(l.t.iter().map(|p| (p.0, p.1 / c)).collect(), l.k / c, self)?; self.unlin(&q, w) } else { self.c(w, 0) }) }
            if l.lo >= 0 { if let Some((q, r)) = l.split(c, self) { return Some(if div { self.unlin(&q, w) } else { self.unlin(&r, w) }) } }
            if l.lo >= 0 && l.hi < c { return Some(if div { self.c(w, 0) } else { a }) }
            let cb = 128 - (c as u128).leading_zeros();
            if l.lo >= 0 {
                let nw = l.ubits().max(cb);
                if nw < w || signed { let x = self.unlin(&l, nw); let k = self.c(nw, c as u128); let r = self.bin(if div { O::UDiv } else { O::URem }, x, k); return Some(self.zext(r, w)) }
            } else {
                let nw = l.sbits().max(cb + 1);
                if nw < w { let x = self.unlin(&l, nw); let k = self.c(nw, c as u128); let r = self.bin(op, x, k); return Some(self.sext(r, w)) }
            }
            None
        })();
        self.in_lin -= 1;
        r
    }
    /// a < b (signed, or unsigned when both read non-negative) or a == b, decided or narrowed through linear forms
    fn lin_cmp(&mut self, op: O, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 4 || self.in_lin > 0 { return None }
        let small = w < 8 || self.adepth[a as usize].max(self.adepth[b as usize]) == 0;
        if small {
            let add = |e: E| { let n = self.n(e); let n = if n.op == O::ZExt { self.n(n.a) } else { n }; matches!(n.op, O::Add | O::Sub) };
            if !add(a) && !add(b) { return None }
        }
        let (la, lb) = if op == O::Slt { (self.lin(a)?, self.lin(b)?) } else { (self.ulin(a)?, self.ulin(b)?) };
        let mut d = la.plus(&lb.scale(-1, self)?, self)?;
        if op == O::Eq {
            // both readings are exact: keep the one with fewer terms
            if let (Some(p), Some(q)) = (self.lin(a), self.lin(b)) { if let Some(q) = q.scale(-1, self) { if let Some(e) = p.plus(&q, self) { if e.t.len() < d.t.len() || e.t.len() == d.t.len() && e.hi - e.lo < d.hi - d.lo { d = e } } } }
        }
        if op == O::Eq {
            if d.lo > 0 || d.hi < 0 { return Some(self.c(1, 0)) }
            if d.lo == 0 && d.hi == 0 { return Some(self.c(1, 1)) }
        } else {
            if d.hi < 0 { return Some(self.c(1, 1)) }
            if d.lo >= 0 { return Some(self.c(1, 0)) }
        }
        if small { return None }
        let g = d.gcd();
        if g == 0 { return None }
        if op == O::Eq && d.k % g != 0 { return Some(self.c(1, 0)) }
        let k = d.k.div_euclid(g);
        let (mut p, mut q) = (vec![], vec![]);
        for (x, c) in &d.t { if *c > 0 { p.push((*x, c / g)) } else { q.push((*x, -c / g)) } }
        let p = Lin::new(p, k.max(0), self)?;
        let q = Lin::new(q, (-k).max(0), self)?;
        let uns = p.lo >= 0 && q.lo >= 0;
        let nw = if uns { p.ubits().max(q.ubits()) } else { p.sbits().max(q.sbits()) };
        let muls = |s: &Self, e: E| matches!(s.n(e).op, O::Mul | O::Sub | O::Add);
        if g == 1 && (nw + 8 > w || !(muls(self, a) || muls(self, b) || w >= 64)) { return None }
        if nw > w { return None }
        self.in_lin += 1;
        let (x, y) = (self.unlin(&p, nw), self.unlin(&q, nw));
        let r = match op { O::Eq => self.eq(x, y), _ => if uns { self.ult(x, y) } else { self.slt(x, y) } };
        self.in_lin -= 1;
        Some(r)
    }

    fn range_of(&self, n: &Node) -> (u128, u128) {
        use O::*;
        let m = mask(n.w as u32);
        let r = |e: E| self.rng[e as usize];
        match n.op {
            Const => (n.k, n.k),
            ZExt => r(n.a),
            Add => { let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => {
                // x + c where c is "negative": no wrap below
                match al.checked_add(bl) { Some(l) if l > m => { (l & m, ah.wrapping_add(bh) & m) } _ => (0, m) } } } }
            Sub => { let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); if al >= bh { (al - bh, ah - bl) } else { (0, m) } }
            Mul => { let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) } }
            UDiv => { let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); if bl > 0 { (al / bh, ah / bl) } else { (0, m) } }
            URem => { let ((_, ah), (bl, bh)) = (r(n.a), r(n.b)); if bl > 0 { (0, ah.min(bh - 1)) } else { (0, m) } }
            And => { let ((_, ah), (_, bh)) = (r(n.a), r(n.b)); (0, ah.min(bh)) }
            Or => { let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); let bits = 128 - (ah | bh).leading_zeros(); (al.max(bl), mask(bits.max(1)).min(m)) }
            Xor => { let ((_, ah), (_, bh)) = (r(n.a), r(n.b)); let bits = 128 - (ah | bh).leading_zeros(); (0, mask(bits.max(1)).min(m)) }
            LShr => { let ((_, ah), (bl, _)) = (r(n.a), r(n.b)); (0, if bl >= 128 { 0 } else { ah >> bl }) }
            Concat => { let wb = self.w(n.b); let ((al, ah), (bl, bh)) = (r(n.a), r(n.b)); ((al << wb) | bl, (ah << wb) | bh) }
            Extract => if n.k == 0 { let (l, h) = r(n.a); if h <= m { (l, h) } else { (0, m) } } else { (0, (r(n.a).1 >> (n.k as u32)).min(m)) },
            Ite => { let ((al, ah), (bl, bh)) = (r(n.b), r(n.c)); (al.min(bl), ah.max(bh)) }
            SExt => { let w = self.w(n.a); let (l, h) = r(n.a); if h < (1u128 << (w - 1)) { (l, h) } else { (0, m) } }
            _ => (0, m),
        }
    }

    pub fn c(&mut self, w: u32, k: u128) -> E {
        debug_assert!(w > 0 && w <= 128);
        let k = k & mask(w);
        self.intern(Node { op: O::Const, w: w as u16, a: 0, b: 0, c: 0, k })
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = self.var_names.len();
        self.var_names.push(name.to_string());
        self.var_width.push(w as u16);
        let e = self.intern(Node { op: O::Var, w: w as u16, a: id as u32, b: 0, c: 0, k: 0 });
        self.var_expr.push(e);
        e
    }
    fn raw(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E { self.intern(Node { op, w: w as u16, a, b, c, k }) }

    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) { return v.clone(); }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.vars_memo.contains_key(&x) { continue; }
            let n = self.n(x);
            let kids: &[E] = match n.op { O::Const | O::Var => &[], O::Not | O::Extract | O::ZExt | O::SExt | O::FSqrt | O::FToS | O::FToU | O::SToF | O::UToF | O::FToF | O::FRne | O::FRtz | O::FRtp | O::FRtn | O::FRna => &[n.a], O::Ite | O::FFma => &[n.a, n.b, n.c], _ => &[n.a, n.b] };
            if !done && !kids.is_empty() {
                st.push((x, true));
                for k in kids { if !self.vars_memo.contains_key(k) { st.push((*k, false)) } }
                continue;
            }
            let r = if n.op == O::Var { vec![n.a] } else {
                let mut s: Vec<u32> = vec![];
                for k in kids { s.extend(self.vars_memo[k].iter()) }
                s.sort_unstable(); s.dedup(); s
            };
            // share identical vectors with a child when possible
            let mut shared = None;
            for k in kids { if *self.vars_memo[k] == r { shared = Some(self.vars_memo[k].clone()); break } }
            self.vars_memo.insert(x, shared.unwrap_or_else(|| std::rc::Rc::new(r)));
        }
        self.vars_memo[&e].clone()
    }

    // ---------------------------------------------------------------- builders
    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        use O::*;
        let w = self.w(a);
        match op {
            Add => self.add(a, b), Sub => self.sub(a, b), Mul => self.mul(a, b),
            And => self.and(a, b), Or => self.or(a, b), Xor => self.xor(a, b),
            Shl | LShr | AShr => self.shift(op, a, b),
            Eq => self.eq(a, b), Ult => self.ult(a, b), Ule => { let x = self.ult(b, a); self.not(x) }
            Slt => self.slt(a, b), Sle => { let x = self.slt(b, a); self.not(x) }
            Concat => self.concat(a, b),
            UDiv | URem | SDiv | SRem => {
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let k = fold(op, w, w, x, y, 0).unwrap(); return self.c(w, k) }
                if let Some(y) = self.cv(b) {
                    if y == 1 { return if op == UDiv || op == SDiv { a } else { self.c(w, 0) } }
                    if let Some(r) = self.lin_div(op, a, y) { return r }
                    if y.is_power_of_two() && (op == UDiv || op == URem) {
                        let s = y.trailing_zeros();
                        return if op == UDiv { let k = self.c(w, s as u128); self.shift(LShr, a, k) } else { let x = self.extract(a, 0, s); self.zext(x, w) };
                    }
                    // narrow when the value range allows
                    if op == UDiv || op == URem {
                        let (_, h) = self.rng[a as usize];
                        if h < y { return if op == UDiv { self.c(w, 0) } else { a } }
                        let need = (128 - (h | y).leading_zeros()).max(1);
                        if need < w { let x = self.extract(a, 0, need); let y2 = self.c(need, y); let r = self.bin(op, x, y2); return self.zext(r, w) }
                    }
                    if (op == SDiv || op == SRem) && y < (1u128 << (w - 1)) && self.rng[a as usize].1 < (1u128 << (w - 1)) {
                        return self.bin(if op == SDiv { UDiv } else { URem }, a, b);
                    }
                }
                if op == UDiv || op == URem {
                    let (h, hb) = (self.rng[a as usize].1, self.rng[b as usize].1);
                    let need = (128 - (h | hb).leading_zeros()).max(1);
                    if need < w && self.rng[b as usize].0 > 0 { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let r = self.bin(op, x, y); return self.zext(r, w) }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            FAdd | FSub | FMul | FDiv | FRem => {
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let k = fold(op, w, w, x, y, 0).unwrap(); return self.c(w, k) }
                self.raw(op, w, a, b, 0, 0)
            }
            FLt | FLe | FEq | FUno => {
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let k = fold(op, 1, w, x, y, 0).unwrap(); return self.c(1, k) }
                self.raw(op, 1, a, b, 0, 0)
            }
            _ => panic!("bin {:?}", op),
        }
    }
    pub fn fun1(&mut self, op: O, w: u32, a: E) -> E {
        let cw = self.w(a);
        if let Some(x) = self.cv(a) { if let Some(k) = fold(op, w, cw, x, 0, 0) { return self.c(w, k) } }
        self.raw(op, w, a, 0, 0, 0)
    }
    pub fn fma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) { let k = fold(O::FFma, w, w, x, y, z).unwrap(); return self.c(w, k) }
        self.raw(O::FFma, w, a, b, c, 0)
    }
    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(w, x.wrapping_add(y)) }
            if y == 0 { return a }
            let na = self.n(a);
            if na.op == O::Add { if let Some(k) = self.cv(na.b) { let k = self.c(w, k.wrapping_add(y)); return self.add(na.a, k) } }
            if na.op == O::Ite && self.ctree[a as usize] { let (t, f) = (self.add(na.b, b), self.add(na.c, b)); return self.ite(na.a, t, f) }
            // disjoint low bits: concat(x, 0_k) + c with c < 2^k
            if na.op == O::Concat { if self.cv(na.b) == Some(0) { let wb = self.w(na.b); if y <= mask(wb) { let k = self.c(wb, y); return self.concat(na.a, k) } } }
            if w == 1 { return self.not(a) }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            // move constants outward
            if na.op == O::Add && self.cv(na.b).is_some() { let s = self.add(na.a, b); return self.add(s, na.b) }
            if nb.op == O::Add && self.cv(nb.b).is_some() { let s = self.add(a, nb.a); return self.add(s, nb.b) }
            if na.op == O::Sub && na.b == b { return na.a }
            if nb.op == O::Sub && nb.b == a { return nb.a }
            if let Some(r) = self.disjoint_or(a, b) { return r }
            if w == 1 { return self.xor(a, b) }
            // additions of zero-extended operands that cannot overflow a narrower width
            let h = self.rng[a as usize].1.checked_add(self.rng[b as usize].1);
            if let Some(h) = h {
                let need = (128 - h.leading_zeros()).max(1);
                if need < w && na.op == O::ZExt && nb.op == O::ZExt {
                    let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                    let s = self.add(x, y); return self.zext(s, w);
                }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.raw(O::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(w, 0) }
        if let Some(y) = self.cv(b) { let k = self.c(w, y.wrapping_neg()); return self.add(a, k) }
        let (na, nb) = (self.n(a), self.n(b));
        if self.cv(a) == Some(0) && nb.op == O::ZExt && self.w(nb.a) == 1 { return self.sext(nb.a, w) }
        if na.op == O::Add {
            if na.a == b { return na.b }
            if na.b == b { return na.a }
            if self.cv(na.b).is_some() { let s = self.sub(na.a, b); return self.add(s, na.b) }
        }
        if nb.op == O::Add {
            if nb.a == a { let z = self.c(w, 0); return self.sub(z, nb.b) }
            if nb.b == a { let z = self.c(w, 0); return self.sub(z, nb.a) }
            if let Some(k) = self.cv(nb.b) { let s = self.sub(a, nb.a); let k = self.c(w, k.wrapping_neg()); return self.add(s, k) }
        }
        if nb.op == O::Sub && nb.a == a { return nb.b }
        if na.op == O::Sub && na.a == b { let z = self.c(w, 0); return self.sub(z, na.b) }
        if w == 1 { return self.xor(a, b) }
        self.raw(O::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(w, x.wrapping_mul(y)) }
            if y == 0 { return b }
            if y == 1 { return a }
            if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.shift(O::Shl, a, k) }
            let na = self.n(a);
            if na.op == O::Mul { if let Some(k) = self.cv(na.b) { let k = self.c(w, k.wrapping_mul(y)); return self.mul(na.a, k) } }
            if na.op == O::Add { if let Some(k) = self.cv(na.b) { let k = self.c(w, k.wrapping_mul(y)); let m = self.mul(na.a, b); return self.add(m, k) } }
            if na.op == O::Ite && self.ctree[a as usize] { let (t, f) = (self.mul(na.b, b), self.mul(na.c, b)); return self.ite(na.a, t, f) }
        } else if a > b { std::mem::swap(&mut a, &mut b) }
        if w == 1 { return self.and(a, b) }
        let h = self.rng[a as usize].1.checked_mul(self.rng[b as usize].1);
        if let Some(h) = h {
            let need = (128 - h.leading_zeros()).max(1);
            if need < w {
                let (x, y) = (self.extract(a, 0, need), self.extract(b, 0, need));
                let s = self.mul(x, y); return self.zext(s, w);
            }
        }
        self.raw(O::Mul, w, a, b, 0, 0)
    }
    /// a, b with no overlapping possibly-set bits where one is concat(x,0) and the other fits below
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for (p, q) in [(a, b), (b, a)] {
            // p has >= k low zero bits, q < 2^k
            let h = self.rng[q as usize].1;
            if h == 0 { return Some(p) }
            let need = 128 - h.leading_zeros();
            if need >= w { continue }
            let tz = self.low_zeros(p);
            if tz >= need {
                let hi = self.extract(p, need, w - need);
                let lo = self.extract(q, 0, need);
                return Some(self.concat(hi, lo));
            }
        }
        None
    }
    pub fn low_zeros(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            O::Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
            O::Concat => { let z = self.low_zeros(n.b); if z == self.w(n.b) { z + self.low_zeros(n.a) } else { z } }
            O::ZExt => { let z = self.low_zeros(n.a); if z == self.w(n.a) { n.w as u32 } else { z } }
            _ => 0,
        }
    }
    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(w, x & y) }
            if y == 0 { return b }
            if y == mask(w) { return a }
            let na = self.n(a);
            if na.op == O::And { if let Some(k) = self.cv(na.b) { let k = self.c(w, k & y); return self.and(na.a, k) } }
            if na.op == O::Ite && self.ctree[a as usize] { let (t, f) = (self.and(na.b, b), self.and(na.c, b)); return self.ite(na.a, t, f) }
            // leading / trailing zero segments
            let hi0 = y.leading_zeros() - (128 - w);
            if hi0 > 0 {
                let x = self.extract(a, 0, w - hi0); let k = self.c(w - hi0, y);
                let r = self.and(x, k); return self.zext(r, w);
            }
            let tz = y.trailing_zeros();
            if tz > 0 {
                let x = self.extract(a, tz, w - tz); let k = self.c(w - tz, y >> tz);
                let r = self.and(x, k); let z = self.c(tz, 0); return self.concat(r, z);
            }
            if na.op == O::Concat || na.op == O::ZExt || na.op == O::SExt {
                // split a concat under a mask
                if na.op == O::Concat { let wb = self.w(na.b); let (kh, kl) = (self.c(w - wb, y >> wb), self.c(wb, y)); let (h, l) = (self.and(na.a, kh), self.and(na.b, kl)); return self.concat(h, l) }
                if na.op == O::ZExt { let wa = self.w(na.a); let k = self.c(wa, y); let r = self.and(na.a, k); return self.zext(r, w) }
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a { return self.c(w, 0) }
            if nb.op == O::And && (nb.a == a || nb.b == a) { return b }
            if na.op == O::And && (na.a == b || na.b == b) { return a }
            if na.op == O::ZExt || nb.op == O::ZExt {
                let (wa, wb) = (if na.op == O::ZExt { self.w(na.a) } else { w }, if nb.op == O::ZExt { self.w(nb.a) } else { w });
                let k = wa.min(wb);
                let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                let r = self.and(x, y); return self.zext(r, w);
            }
            if na.op == O::Concat && self.cv(na.b) == Some(0) || nb.op == O::Concat && self.cv(nb.b) == Some(0) {
                let k = self.low_zeros(a).max(self.low_zeros(b)); 
                if k > 0 { let (x, y) = (self.extract(a, k, w - k), self.extract(b, k, w - k)); let r = self.and(x, y); let z = self.c(k, 0); return self.concat(r, z) }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.raw(O::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(w, x | y) }
            if y == 0 { return a }
            if y == mask(w) { return b }
            let na = self.n(a);
            if na.op == O::Or { if let Some(k) = self.cv(na.b) { let k = self.c(w, k | y); return self.or(na.a, k) } }
            if na.op == O::Ite && self.ctree[a as usize] { let (t, f) = (self.or(na.b, b), self.or(na.c, b)); return self.ite(na.a, t, f) }
            // split at constant boundaries: leading zeros of y keep a's high part
            let hi0 = y.leading_zeros() - (128 - w);
            if hi0 > 0 {
                let h = self.extract(a, w - hi0, hi0);
                let x = self.extract(a, 0, w - hi0); let k = self.c(w - hi0, y);
                let l = self.or(x, k); return self.concat(h, l);
            }
            let tz = y.trailing_zeros();
            if tz > 0 {
                let x = self.extract(a, tz, w - tz); let k = self.c(w - tz, y >> tz);
                let h = self.or(x, k); let l = self.extract(a, 0, tz); return self.concat(h, l);
            }
            // y has top and bottom bits set: peel leading ones
            let l1 = (y << (128 - w)).leading_ones();
            if l1 < w { let k = self.c(w - l1, y); let x = self.extract(a, 0, w - l1); let l = self.or(x, k); let h = self.c(l1, mask(l1)); return self.concat(h, l) }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a { return self.c(w, mask(w)) }
            if nb.op == O::Or && (nb.a == a || nb.b == a) { return b }
            if na.op == O::Or && (na.a == b || na.b == b) { return a }
            if w > 1 { if let Some(r) = self.disjoint_or(a, b) { return r } }
            if w > 1 { if let Some(r) = self.concat_bitwise(O::Or, a, b) { return r } }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.raw(O::Or, w, a, b, 0, 0)
    }
    /// Or of values with constant-zero segments: split at a zero boundary of either operand.
    fn concat_bitwise(&mut self, op: O, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for (p, q) in [(a, b), (b, a)] {
            let np = self.n(p);
            if np.op == O::Concat {
                let wb = self.w(np.b);
                let nq = self.n(q);
                let both = op == O::Xor && nq.op == O::Concat && { let (e, f) = (np.a, np.b); let (g, h) = (nq.a, nq.b); [e, f, g, h].iter().any(|e| self.cv(*e).is_some()) };
                if self.cv(np.b) == Some(0) || self.cv(np.a) == Some(0) || both {
                    let (qh, ql) = (self.extract(q, wb, w - wb), self.extract(q, 0, wb));
                    let (h, l) = (if op == O::Or { self.or(np.a, qh) } else { self.xor(np.a, qh) }, if op == O::Or { self.or(np.b, ql) } else { self.xor(np.b, ql) });
                    return Some(self.concat(h, l));
                }
            }
            if np.op == O::ZExt {
                let wb = self.w(np.a);
                let (qh, ql) = (self.extract(q, wb, w - wb), self.extract(q, 0, wb));
                let l = if op == O::Or { self.or(np.a, ql) } else { self.xor(np.a, ql) };
                return Some(self.concat(qh, l));
            }
        }
        None
    }
    fn xor_leaves(&self, e: E, left: u32, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.op == O::Xor && left > 0 { self.xor_leaves(n.a, left - 1, out); self.xor_leaves(n.b, left - 1, out) } else { out.push(e) }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let r = self.xor_(a, b);
        if !self.marked.is_empty() && (self.marked.contains_key(&a) || self.marked.contains_key(&b)) && self.cv(r).is_none() { self.marked.insert(r, ()); }
        r
    }
    fn xor_(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(w, 0) }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(w, x ^ y) }
            if y == 0 { return a }
            if y == mask(w) { return self.not(a) }
            let na = self.n(a);
            if na.op == O::Xor { if let Some(k) = self.cv(na.b) { let k = self.c(w, k ^ y); return self.xor(na.a, k) } }
            if na.op == O::Ite && self.ctree[a as usize] { let (t, f) = (self.xor(na.b, b), self.xor(na.c, b)); return self.ite(na.a, t, f) }
            if na.op == O::Concat && self.cv(na.a).or(self.cv(na.b)).is_some() {
                let wl = self.w(na.b);
                let (kh, kl) = (self.c(w - wl, y >> wl), self.c(wl, y & mask(wl)));
                let (h, l) = (self.xor(na.a, kh), self.xor(na.b, kl));
                return self.concat(h, l);
            }
            let hi0 = y.leading_zeros() - (128 - w);
            if hi0 > 0 && (na.op == O::ZExt || na.op == O::Concat) {
                let h = self.extract(a, w - hi0, hi0);
                let x = self.extract(a, 0, w - hi0); let k = self.c(w - hi0, y);
                let l = self.xor(x, k); return self.concat(h, l);
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == O::Not { let r = self.xor(na.a, b); return self.not(r) }
            if nb.op == O::Not { let r = self.xor(a, nb.a); return self.not(r) }
            if na.op == O::Xor { if na.a == b { return na.b } if na.b == b { return na.a } }
            if nb.op == O::Xor { if nb.a == a { return nb.b } if nb.b == a { return nb.a } }
            if na.op == O::Xor && self.cv(na.b).is_some() { let s = self.xor(na.a, b); return self.xor(s, na.b) }
            if nb.op == O::Xor && self.cv(nb.b).is_some() { let s = self.xor(a, nb.a); return self.xor(s, nb.b) }
            if na.op == O::Xor || nb.op == O::Xor {
                let (mut l, mut m) = (vec![], vec![]);
                self.xor_leaves(a, 12, &mut l); self.xor_leaves(b, 12, &mut m);
                if l.len() + m.len() <= 24 {
                    let n = l.len();
                    for e in m { if let Some(i) = l.iter().position(|x| *x == e) { l.swap_remove(i); } else { l.push(e) } }
                    if l.len() < n || l.is_empty() {
                        l.sort();
                        let mut r = self.c(w, 0);
                        for e in l { r = self.xor(r, e) }
                        return r;
                    }
                }
            }
            if w > 1 { if let Some(r) = self.concat_bitwise(O::Xor, a, b) { return r } }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.raw(O::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let r = self.not_(a);
        if !self.marked.is_empty() && (self.marked.contains_key(&a)) && self.cv(r).is_none() { self.marked.insert(r, ()); }
        r
    }
    fn not_(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        match n.op {
            O::Const => return self.c(w, !n.k),
            O::Not => return n.a,
            O::Ite if self.ctree[a as usize] => { let (t, f) = (self.not(n.b), self.not(n.c)); return self.ite(n.a, t, f) }
            O::Xor => if let Some(k) = self.cv(n.b) { let k = self.c(w, !k); return self.xor(n.a, k) },
            O::Ult => { return self.raw_ule(n.b, n.a) }
            O::Ule => { return self.ult(n.b, n.a) }
            O::Slt => { return self.raw(O::Sle, 1, n.b, n.a, 0, 0) }
            O::Sle => { return self.slt(n.b, n.a) }
            _ => {}
        }
        self.raw(O::Not, w, a, 0, 0, 0)
    }
    fn raw_ule(&mut self, a: E, b: E) -> E {
        // a <= b
        if let Some(x) = self.cv(a) { // k <= b  <=> !(b < k)
            if x == 0 { return self.c(1, 1) }
        }
        if let Some(y) = self.cv(b) {
            if y == 0 { let z = self.c(self.w(a), 0); return self.eq(a, z) }
            let n = self.n(a);
            if n.op == O::Concat && (y + 1).is_power_of_two() && self.xor_bit(n.a).is_some() {
                let k = y.trailing_ones();
                if k < n.w as u32 { let h = self.extract(a, k, n.w as u32 - k); let z = self.c(n.w as u32 - k, 0); return self.eq(h, z) }
            }
        }
        self.raw(O::Ule, 1, a, b, 0, 0)
    }
    pub fn shift(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 { return a }
            if y >= w as u128 {
                return if op == O::AShr { let s = self.extract(a, w - 1, 1); self.sext(s, w) } else { self.c(w, 0) };
            }
            let k = y as u32;
            return match op {
                O::Shl => { let x = self.extract(a, 0, w - k); let z = self.c(k, 0); self.concat(x, z) }
                O::LShr => { let x = self.extract(a, k, w - k); self.zext(x, w) }
                _ => { let x = self.extract(a, k, w - k); self.sext(x, w) }
            };
        }
        if self.cv(a) == Some(0) { return a }
        let nb = self.n(b);
        if nb.op == O::Ite && self.ctree[b as usize] { let (t, f) = (self.shift(op, a, nb.b), self.shift(op, a, nb.c)); return self.ite(nb.a, t, f) }
        if op == O::AShr && self.rng[a as usize].1 < (1u128 << (w - 1)) { return self.shift(O::LShr, a, b) }
        self.raw(op, w, a, b, 0, 0)
    }
    /// byte i of a value being stored: a plain slice, so that reading the bytes back together gives the value itself
    pub fn byte_of(&mut self, a: E, i: u32) -> E {
        let r = self.byte_of_(a, i);
        if !self.marked.is_empty() && (self.marked.contains_key(&a)) && self.cv(r).is_none() { self.marked.insert(r, ()); }
        r
    }
    fn byte_of_(&mut self, a: E, i: u32) -> E {
        let n = self.n(a);
        if n.w == 8 { return a }
        match n.op {
            O::Add | O::Sub | O::Mul | O::And | O::Or | O::Xor | O::Not | O::SExt => {
                let (_, h) = self.rng[a as usize];
                if i * 8 < 128 && h >> (i * 8) == 0 { return self.c(8, 0) }
                self.raw(O::Extract, 8, a, 0, 0, i as u128 * 8)
            }
            O::Ite if !self.ctree[a as usize] => self.raw(O::Extract, 8, a, 0, 0, i as u128 * 8),
            _ => self.extract(a, i * 8, 8),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let r = self.extract_(a, lo, len);
        if !self.marked.is_empty() && (self.marked.contains_key(&a)) && self.cv(r).is_none() { self.marked.insert(r, ()); }
        r
    }
    fn extract_(&mut self, a: E, lo: u32, len: u32) -> E {
        let n = self.n(a);
        let w = n.w as u32;
        debug_assert!(len > 0 && lo + len <= w, "extract lo={} len={} w={}", lo, len, w);
        if len == w { return a }
        match n.op {
            O::Const => return self.c(len, n.k >> lo),
            O::Extract => return self.extract(n.a, lo + n.k as u32, len),
            O::Concat => {
                let wb = self.w(n.b);
                if lo >= wb { return self.extract(n.a, lo - wb, len) }
                if lo + len <= wb { return self.extract(n.b, lo, len) }
                let h = self.extract(n.a, 0, lo + len - wb);
                let l = self.extract(n.b, lo, wb - lo);
                return self.concat(h, l);
            }
            O::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa { return self.c(len, 0) }
                if lo + len <= wa { return self.extract(n.a, lo, len) }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, len);
            }
            O::SExt => {
                let wa = self.w(n.a);
                if lo + len <= wa { return self.extract(n.a, lo, len) }
                if lo < wa { let x = self.extract(n.a, lo, wa - lo); return self.sext(x, len) }
                let s = self.extract(n.a, wa - 1, 1);
                return self.sext(s, len);
            }
            O::And | O::Or | O::Xor => {
                let (x, y) = (self.extract(n.a, lo, len), self.extract(n.b, lo, len));
                return match n.op { O::And => self.and(x, y), O::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            O::Not => { let x = self.extract(n.a, lo, len); return self.not(x) }
            O::Add | O::Sub | O::Mul if lo == 0 && self.adepth[a as usize] <= 3 => {
                let (x, y) = (self.extract(n.a, 0, len), self.extract(n.b, 0, len));
                return match n.op { O::Add => self.add(x, y), O::Sub => self.sub(x, y), _ => self.mul(x, y) };
            }
            O::Ite => if self.ctree[a as usize] || self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                let (x, y) = (self.extract(n.b, lo, len), self.extract(n.c, lo, len));
                return self.ite(n.a, x, y);
            },
            _ => {}
        }
        if len == 1 && lo == w - 1 && w >= 8 && matches!(n.op, O::Add | O::Sub | O::Mul | O::SDiv) { let z = self.c(w, 0); if let Some(r) = self.lin_cmp(O::Slt, a, z) { return r } }
        // high zero part by range
        let h = self.rng[a as usize].1;
        if h >> lo == 0 { return self.c(len, 0) }
        self.raw(O::Extract, len, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w { return a }
        debug_assert!(w > n.w as u32);
        match n.op {
            O::Const => return self.c(w, n.k),
            O::ZExt => return self.raw(O::ZExt, w, n.a, 0, 0, 0),
            O::Ite if self.ctree[a as usize] => { let (t, f) = (self.zext(n.b, w), self.zext(n.c, w)); return self.ite(n.a, t, f) }
            _ => {}
        }
        self.raw(O::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w { return a }
        match n.op {
            O::Const => { let v = sx(n.k, n.w as u32) as u128; return self.c(w, v) }
            O::SExt => return self.raw(O::SExt, w, n.a, 0, 0, 0),
            O::ZExt => return self.zext(n.a, w),
            O::Ite if self.ctree[a as usize] => { let (t, f) = (self.sext(n.b, w), self.sext(n.c, w)); return self.ite(n.a, t, f) }
            _ => {}
        }
        if self.rng[a as usize].1 < (1u128 << (n.w - 1)) { return self.zext(a, w) }
        self.raw(O::SExt, w, a, 0, 0, 0)
    }
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        // concat(a,b) as one simpler term
        let (na, nb) = (self.n(a), self.n(b));
        let (wa, wb) = (na.w as u32, nb.w as u32);
        match (na.op, nb.op) {
            (O::Const, O::Const) => return Some(self.c(wa + wb, (na.k << wb) | nb.k)),
            (O::Extract, O::Extract) if na.a == nb.a && na.k as u32 == nb.k as u32 + wb => return Some(self.extract(na.a, nb.k as u32, wa + wb)),
            (O::Ite, O::Ite) if na.a == nb.a && self.ctree[a as usize] && self.ctree[b as usize] => {
                let (t, f) = (self.concat(na.b, nb.b), self.concat(na.c, nb.c)); return Some(self.ite(na.a, t, f))
            }
            (O::Extract, _) if na.a == b && na.k as u32 == wb => { /* extract(b, wb..) impossible */ }
            _ => {}
        }
        None
    }
    /// x and the bit s, for x xor (s in every bit)
    fn xor_bit(&self, e: E) -> Option<(E, E)> {
        let n = self.n(e);
        if n.op != O::Xor { return None }
        let (p, q) = (self.n(n.a), self.n(n.b));
        if p.op == O::SExt && self.w(p.a) == 1 { return Some((n.b, p.a)) }
        if q.op == O::SExt && self.w(q.a) == 1 { return Some((n.a, q.a)) }
        None
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let r = self.concat_(a, b);
        if !self.marked.is_empty() && (self.marked.contains_key(&a) || self.marked.contains_key(&b)) && self.cv(r).is_none() { self.marked.insert(r, ()); }
        r
    }
    fn concat_(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let (wa, wb) = (na.w as u32, nb.w as u32);
        debug_assert!(wa + wb <= 128);
        if na.op == O::Const && na.k == 0 { return self.zext(b, wa + wb) }
        if let Some(m) = self.merge(a, b) { return m }
        if na.op == O::ZExt { let x = self.concat(na.a, b); return self.zext(x, wa + wb) }
        if na.op == O::Concat { let r = self.concat(na.b, b); return self.concat(na.a, r) }
        if nb.op == O::Concat { if let Some(m) = self.merge(a, nb.a) { return self.concat(m, nb.b) } }
        // slices of one value, each xored with copies of one bit
        if let Some((x, s)) = self.xor_bit(a) {
            if let Some((y, t)) = self.xor_bit(b) { if s == t { let c = self.concat(x, y); let m = self.sext(s, wa + wb); return self.xor(c, m) } }
            if nb.op == O::Concat { if let Some((y, t)) = self.xor_bit(nb.a) { if s == t { let c = self.concat(x, y); let m = self.sext(s, self.w(c)); let h = self.xor(c, m); return self.concat(h, nb.b) } } }
        }
        // sign extension rebuilt from pieces: concat(sext(bit), x) with the bit x's own sign
        if na.op == O::SExt && self.w(na.a) == 1 { let s = self.extract(b, wb - 1, 1); if s == na.a { return self.sext(b, wa + wb) } }
        if na.op == O::Extract && na.k >= wb as u128 && matches!(self.n(na.a).op, O::Add | O::Sub | O::Mul) {
            let lo = self.extract(na.a, na.k as u32 - wb, wb);
            if lo == b { return self.extract(na.a, na.k as u32 - wb, wa + wb) }
        }
        self.raw(O::Concat, wa + wb, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, mut t: E, mut f: E) -> E {
        if let Some(k) = self.cv(c) { return if k != 0 { t } else { f } }
        if t == f { return t }
        let mut c = c;
        let nc = self.n(c);
        if nc.op == O::Not { c = nc.a; std::mem::swap(&mut t, &mut f) }
        let (nt, nf) = (self.n(t), self.n(f));
        if nt.op == O::Ite && nt.a == c { return self.ite(c, nt.b, f) }
        if nf.op == O::Ite && nf.a == c { return self.ite(c, t, nf.c) }
        let w = nt.w as u32;
        debug_assert_eq!(nt.w, nf.w);
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => { let n = self.not(c); return self.and(n, f) }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, t) }
                _ => {}
            }
            if t == c { return self.or(c, f) }
            if f == c { return self.and(c, t) }
        } else {
            // ite(c, zext x, zext y)
            if nt.op == O::ZExt && (nf.op == O::ZExt && self.w(nt.a) == self.w(nf.a)) { let r = self.ite(c, nt.a, nf.a); return self.zext(r, w) }
            // ite(x < y, y, x) patterns are left alone
        }
        self.raw(O::Ite, w, c, t, f, 0)
    }
    /// a - b as a linear combination mod 2^w: its value when every atom cancels
    fn lin_const_diff(&mut self, a: E, b: E) -> Option<u128> {
        let w = self.w(a);
        let m = mask(w);
        // pending: term -> coefficient, expanded from the newest (largest id) down so that shared subterms merge
        let mut t: std::collections::BTreeMap<E, u128> = Default::default();
        let mut k = 0u128;
        fn put(t: &mut std::collections::BTreeMap<E, u128>, e: E, c: u128, m: u128) {
            if c & m == 0 { return }
            let v = t.entry(e).or_insert(0);
            *v = v.wrapping_add(c) & m;
            if *v == 0 { t.remove(&e); }
        }
        put(&mut t, a, 1, m);
        put(&mut t, b, m, m);
        let mut atoms: std::collections::BTreeMap<E, u128> = Default::default();
        let mut steps = 0;
        while let Some((e, c)) = t.pop_last() {
            steps += 1;
            if steps > 400 || t.len() > 96 || atoms.len() > 64 { return None }
            let n = self.n(e);
            let we = n.w as u32;
            // terms narrower than w stand for their zero extension
            let nowrap = |s: &Self| we == w || match n.op {
                O::Add => s.rng[n.a as usize].1.checked_add(s.rng[n.b as usize].1).map_or(false, |h| h <= mask(we)),
                O::Mul => s.rng[n.a as usize].1.checked_mul(s.rng[n.b as usize].1).map_or(false, |h| h <= mask(we)),
                O::Sub => s.rng[n.a as usize].0 >= s.rng[n.b as usize].1,
                O::Shl => match s.cv(n.b) { Some(k) if k < 128 => s.rng[n.a as usize].1.checked_shl(k as u32).map_or(false, |h| h <= mask(we) && h >> k == s.rng[n.a as usize].1), _ => false },
                _ => true,
            };
            match n.op {
                O::Const => k = k.wrapping_add(n.k.wrapping_mul(c)) & m,
                O::Add if nowrap(self) => { put(&mut t, n.a, c, m); put(&mut t, n.b, c, m) }
                O::Sub if nowrap(self) => { put(&mut t, n.a, c, m); put(&mut t, n.b, c.wrapping_neg() & m, m) }
                O::Mul if self.cv(n.b).is_some() && nowrap(self) => { let k = self.cv(n.b).unwrap(); put(&mut t, n.a, c.wrapping_mul(k) & m, m) }
                O::Shl if self.cv(n.b).map_or(false, |k| k < 128) && nowrap(self) => { let k = self.cv(n.b).unwrap(); put(&mut t, n.a, c.wrapping_shl(k as u32) & m, m) }
                O::ZExt => put(&mut t, n.a, c, m),
                O::Concat => { let wb = self.w(n.b); put(&mut t, n.b, c, m); if wb < 128 { put(&mut t, n.a, c.wrapping_shl(wb) & m, m) } }
                _ => put(&mut atoms, e, c, m),
            }
        }
        if atoms.is_empty() { Some(k & m) } else { None }
    }
    /// `e` as a sum of bits over GF(2), when it is one of few bits.
    fn form(&mut self, e: E) -> Option<std::rc::Rc<Form>> {
        if let Some(r) = self.forms.get(&e) { return r.clone() }
        let n = self.n(e);
        let w = n.w as u32;
        let m = mask(w);
        let r: Option<Form> = (|| Some(match n.op {
            O::Const => Form { k: n.k, at: vec![] },
            O::Xor => { let mut f = (*self.form(n.a)?).clone(); let g = self.form(n.b)?; f.add(&g); f }
            O::Not => { let mut f = (*self.form(n.a)?).clone(); f.k ^= m; f }
            O::Extract => { let lo = n.k as u32; if self.n(n.a).op == O::Var { return self.atoms(e) } self.form(n.a)?.map(|c| c >> lo & m) }
            O::ZExt => (*self.form(n.a)?).clone(),
            O::Concat => { let wl = self.w(n.b); let mut f = self.form(n.a)?.map(|c| c << wl); let g = self.form(n.b)?; f.add(&g); f }
            O::And if self.cv(n.b).is_some() => { let k = self.cv(n.b).unwrap(); self.form(n.a)?.map(|c| c & k) }
            O::Shl if self.cv(n.b).is_some() => { let k = self.cv(n.b).unwrap().min(127) as u32; self.form(n.a)?.map(|c| if k >= w { 0 } else { c << k & m }) }
            O::LShr if self.cv(n.b).is_some() => { let k = self.cv(n.b).unwrap().min(127) as u32; self.form(n.a)?.map(|c| if k >= w { 0 } else { c >> k }) }
            O::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let (x, y) = (self.cv(n.b).unwrap(), self.cv(n.c).unwrap());
                let mut f = self.form(n.a)?.map(|c| if c & 1 == 1 { x ^ y } else { 0 });
                f.k ^= y; f
            }
            _ => return self.atoms(e),
        }))();
        let r = r.filter(|f| f.at.len() <= 120).map(std::rc::Rc::new);
        self.forms.insert(e, r.clone());
        r
    }
    fn atoms(&mut self, e: E) -> Option<Form> {
        let w = self.w(e);
        if w > 64 { return None }
        let mut f = Form::default();
        for i in 0..w {
            let b = if w == 1 { e } else { self.extract(e, i, 1) };
            match self.cv(b) { Some(k) => f.k ^= k << i, None => f.add(&Form { k: 0, at: vec![(b, 1 << i)] }) }
        }
        Some(f)
    }
    fn is_marked(&self, e: E, d: u32) -> bool {
        if self.marked.contains_key(&e) { return true }
        if d == 0 { return false }
        let n = self.n(e);
        match n.op {
            O::Xor | O::Concat => self.is_marked(n.a, d - 1) || self.is_marked(n.b, d - 1),
            O::Not | O::Extract | O::ZExt | O::LShr | O::Shl => self.is_marked(n.a, d - 1),
            _ => false,
        }
    }
    /// An equation between checksums, solved for as many bits as it determines.
    fn eq_linear(&mut self, a: E, b: E) -> Option<E> {
        let mut f = (*self.form(a)?).clone();
        let g = self.form(b)?;
        f.add(&g);
        let w = self.w(a);
        let mut rows: Vec<(u128, bool)> = (0..w).map(|i| {
            let mut r = 0u128;
            for (j, (_, c)) in f.at.iter().enumerate() { r |= (c >> i & 1) << j }
            (r, f.k >> i & 1 == 1)
        }).collect();
        let mut done = 0;
        for j in (0..f.at.len()).rev() {
            let Some(p) = (done..rows.len()).find(|r| rows[*r].0 >> j & 1 == 1) else { continue };
            rows.swap(done, p);
            let pr = rows[done];
            for (i, r) in rows.iter_mut().enumerate() { if i != done && r.0 >> j & 1 == 1 { r.0 ^= pr.0; r.1 ^= pr.1 } }
            done += 1;
        }
        if rows[done..].iter().any(|r| r.1) { return Some(self.c(1, 0)) }
        let mut all = self.c(1, 1);
        for (r, k) in &rows[..done] {
            let mut x = self.c(1, *k as u128 ^ 1);
            for (j, (e, _)) in f.at.iter().enumerate() { if r >> j & 1 == 1 { x = self.xor(*e, x) } }
            all = self.and(all, x);
        }
        Some(all)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b { return self.c(1, 1) }
        if !self.marked.is_empty() && self.w(a) >= 8 && (self.is_marked(a, 4) || self.is_marked(b, 4)) {
            if let Some(r) = self.eq_linear(a, b) { return r }
        }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let ((al, ah), (bl, bh)) = (self.rng[a as usize], self.rng[b as usize]);
        if ah < bl || bh < al { return self.c(1, 0) }
        let na = self.n(a);
        if let Some(y) = self.cv(b) {
            if w == 1 { return if y == 1 { a } else { self.not(a) } }
            match na.op {
                O::Const => return self.c(1, (na.k == y) as u128),
                O::ZExt => { let wa = self.w(na.a); if y > mask(wa) { return self.c(1, 0) } let k = self.c(wa, y); return self.eq(na.a, k) }
                O::SExt => { let wa = self.w(na.a); let t = y & mask(wa); if sx(t, wa) as u128 & mask(w) != y { return self.c(1, 0) } let k = self.c(wa, t); return self.eq(na.a, k) }
                O::Concat => { let wb = self.w(na.b); let (h, l) = (self.c(w - wb, y >> wb), self.c(wb, y)); let (p, q) = (self.eq(na.a, h), self.eq(na.b, l)); return self.and(p, q) }
                O::Add => if let Some(k) = self.cv(na.b) { let k = self.c(w, y.wrapping_sub(k)); return self.eq(na.a, k) },
                O::Xor => if let Some(k) = self.cv(na.b) { let k = self.c(w, y ^ k); return self.eq(na.a, k) } else if y == 0 { return self.eq(na.a, na.b) },
                O::Sub => if y == 0 { return self.eq(na.a, na.b) } else if let Some(k) = self.cv(na.a) { let k = self.c(w, k.wrapping_sub(y)); return self.eq(na.b, k) },
                O::Not => { let k = self.c(w, !y); return self.eq(na.a, k) }
                O::Ite => {
                    let (tc, fc) = (self.ctree[na.b as usize], self.ctree[na.c as usize]);
                    if tc || fc { let (p, q) = (self.eq(na.b, b), self.eq(na.c, b)); return self.ite(na.a, p, q) }
                }
                O::Or if y == 0 => { let z = self.c(w, 0); let (p, q) = (self.eq(na.a, z), self.eq(na.b, z)); return self.and(p, q) }
                O::And if y == mask(w) => { let (p, q) = (self.eq(na.a, b), self.eq(na.b, b)); return self.and(p, q) }
                _ => {}
            }
            if let Some(r) = self.lin_cmp(O::Eq, a, b) { return r }
            // narrow by range
            let need = (128 - (ah | y).leading_zeros()).max(1);
            if need < w && na.op != O::Var { let x = self.extract(a, 0, need); if self.n(x).op != O::Extract { let k = self.c(need, y); return self.eq(x, k) } }
        } else {
            let nb = self.n(b);
            if w >= 8 && (matches!(na.op, O::Add | O::Sub | O::Mul | O::Shl) || matches!(nb.op, O::Add | O::Sub | O::Mul | O::Shl)) {
                if let Some(k) = self.lin_const_diff(a, b) { return self.c(1, (k == 0) as u128) }
            }
            if w == 1 { let x = self.xor(a, b); return self.not(x) }
            if let Some(r) = self.lin_cmp(O::Eq, a, b) { return r }
            if na.op == O::ZExt && nb.op == O::ZExt || na.op == O::SExt && nb.op == O::SExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                if wa == wb { return self.eq(na.a, nb.a) }
                if na.op == O::ZExt {
                    if wa > wb { let y = self.zext(nb.a, wa); return self.eq(na.a, y) } else { let x = self.zext(na.a, wb); return self.eq(x, nb.a) }
                }
            }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) { let (p, q) = (self.eq(na.a, nb.a), self.eq(na.b, nb.b)); return self.and(p, q) }
            if na.op == O::Add { if na.a == b { let z = self.c(w, 0); return self.eq(na.b, z) } if na.b == b { let z = self.c(w, 0); return self.eq(na.a, z) } }
            if nb.op == O::Add { if nb.a == a { let z = self.c(w, 0); return self.eq(nb.b, z) } if nb.b == a { let z = self.c(w, 0); return self.eq(nb.a, z) } }
            if na.op == O::Add && nb.op == O::Add {
                if na.a == nb.a { return self.eq(na.b, nb.b) } if na.b == nb.b { return self.eq(na.a, nb.a) }
                if na.a == nb.b { return self.eq(na.b, nb.a) } if na.b == nb.a { return self.eq(na.a, nb.b) }
            }
            if na.op == O::Not && nb.op == O::Not { return self.eq(na.a, nb.a) }
            if na.op == O::Ite && (na.b == b || na.c == b) {
                if na.b == b { let q = self.eq(na.c, b); return self.or(na.a, q) } else { let p = self.eq(na.b, b); let n = self.not(na.a); return self.or(n, p) }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.raw(O::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(1, 0) }
        let ((al, ah), (bl, bh)) = (self.rng[a as usize], self.rng[b as usize]);
        if ah < bl { return self.c(1, 1) }
        if al >= bh { return self.c(1, 0) }
        if w == 1 { let n = self.not(a); return self.and(n, b) }
        if let Some(y) = self.cv(b) { if y == 1 { let z = self.c(w, 0); return self.eq(a, z) } if y == mask(w) { let q = self.eq(a, b); return self.not(q) } }
        if let Some(x) = self.cv(a) { if x == 0 { let q = self.eq(a, b); return self.not(q) } }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(r) = self.lin_cmp(O::Ult, a, b) { return r }
        // narrow
        let need = (128 - (ah | bh).leading_zeros()).max(1);
        if need < w && (na.op == O::ZExt || na.op == O::Const) && (nb.op == O::ZExt || nb.op == O::Const) {
            let k = need.max(if na.op == O::ZExt { self.w(na.a) } else { 1 }).max(if nb.op == O::ZExt { self.w(nb.a) } else { 1 });
            if k < w { let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k)); return self.ult(x, y) }
        }
        if self.ctree[a as usize] && na.op == O::Ite && self.cv(b).is_some() { let (p, q) = (self.ult(na.b, b), self.ult(na.c, b)); return self.ite(na.a, p, q) }
        if self.ctree[b as usize] && nb.op == O::Ite && self.cv(a).is_some() { let (p, q) = (self.ult(a, nb.b), self.ult(a, nb.c)); return self.ite(nb.a, p, q) }
        // concat with equal high part / low constant tails
        if na.op == O::Concat { if let Some(y) = self.cv(b) {
            let wb = self.w(na.b); let yl = y & mask(wb);
            if yl == 0 { let k = self.c(w - wb, y >> wb); return self.ult(na.a, k) }
        } }
        if na.op == O::Concat && nb.op == O::Concat && na.a == nb.a { return self.ult(na.b, nb.b) }
        self.raw(O::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(1, 0) }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(1, (sx(x, w) < sx(y, w)) as u128) }
        let half = 1u128 << (w - 1);
        let ((al, ah), (bl, bh)) = (self.rng[a as usize], self.rng[b as usize]);
        let (ap, an, bp, bn) = (ah < half, al >= half, bh < half, bl >= half);
        if ap && bp || an && bn { return self.ult(a, b) }
        if an && bp { return self.c(1, 1) }
        if ap && bn { return self.c(1, 0) }
        if let Some(r) = self.lin_cmp(O::Slt, a, b) { return r }
        if self.cv(b) == Some(0) { return self.extract(a, w - 1, 1) }
        if self.cv(a) == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s) } // -1 < b
        if self.cv(a) == Some(half - 1) { return self.c(1, 0) }
        if self.cv(b) == Some(half) { return self.c(1, 0) }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a) }
        if self.ctree[a as usize] && na.op == O::Ite && self.cv(b).is_some() { let (p, q) = (self.slt(na.b, b), self.slt(na.c, b)); return self.ite(na.a, p, q) }
        if self.ctree[b as usize] && nb.op == O::Ite && self.cv(a).is_some() { let (p, q) = (self.slt(a, nb.b), self.slt(a, nb.c)); return self.ite(nb.a, p, q) }
        self.raw(O::Slt, 1, a, b, 0, 0)
    }

    /// the same operation over other operands
    pub fn rebuild(&mut self, n: &Node, k: &[E]) -> E {
        use O::*;
        match n.op {
            Const | Var => unreachable!(),
            Not => self.not(k[0]),
            Extract => self.extract(k[0], n.k as u32, n.w as u32),
            ZExt => self.zext(k[0], n.w as u32),
            SExt => self.sext(k[0], n.w as u32),
            Ite => self.ite(k[0], k[1], k[2]),
            FFma => self.fma(k[0], k[1], k[2]),
            FSqrt | FToS | FToU | SToF | UToF | FToF | FRne | FRtz | FRtp | FRtn | FRna => self.fun1(n.op, n.w as u32, k[0]),
            _ => self.bin(n.op, k[0], k[1]),
        }
    }

    // ---------------------------------------------------------------- evaluation
    pub fn kids(n: &Node) -> ([E; 3], usize) {
        use O::*;
        match n.op {
            Const | Var => ([0; 3], 0),
            Not | Extract | ZExt | SExt | FSqrt | FToS | FToU | SToF | UToF | FToF | FRne | FRtz | FRtp | FRtn | FRna => ([n.a, 0, 0], 1),
            Ite | FFma => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn eval(&self, e: E, model: &[u128], cache: &mut FxMap<E, u128>) -> u128 {
        if let Some(k) = self.cv(e) { return k }
        if let Some(&v) = cache.get(&e) { return v }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if cache.contains_key(&x) { st.pop(); continue; }
            let n = self.n(x);
            let val = |y: E, cache: &FxMap<E, u128>| -> Option<u128> { self.cv(y).or_else(|| cache.get(&y).copied()) };
            if n.op == O::Ite {
                match val(n.a, cache) {
                    None => { st.push(n.a); continue }
                    Some(c) => { let t = if c != 0 { n.b } else { n.c }; match val(t, cache) { None => { st.push(t); continue } Some(v) => { cache.insert(x, v); st.pop(); continue } } }
                }
            }
            let (ks, nk) = Self::kids(&n);
            let mut vs = [0u128; 3];
            let mut ok = true;
            for i in 0..nk { match val(ks[i], cache) { Some(v) => vs[i] = v, None => { st.push(ks[i]); ok = false } } }
            if !ok { continue }
            let v = match n.op {
                O::Const => n.k,
                O::Var => model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w as u32),
                O::Concat => (vs[0] << self.w(n.b)) | vs[1],
                O::Extract => (vs[0] >> n.k as u32) & mask(n.w as u32),
                op => fold(op, n.w as u32, self.w(n.a), vs[0], vs[1], vs[2]).unwrap(),
            };
            cache.insert(x, v);
            st.pop();
        }
        cache[&e]
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 { return "..".into() }
        match n.op {
            O::Const => format!("{:#x}:{}", n.k, n.w),
            O::Var => self.var_names[n.a as usize].clone(),
            O::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            _ => { let (ks, nk) = Self::kids(&n); format!("({:?}:{} {})", n.op, n.w, ks[..nk].iter().map(|k| self.show(*k, d - 1)).collect::<Vec<_>>().join(" ")) }
        }
    }
}
