//! Parser for textual LLVM IR (opaque pointers), lazily per function.
use std::cell::OnceCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK { Void, Int(u32), F32, F64, F128, Half, Ptr, Vec(u64, Ty), Array(u64, Ty), Struct(Vec<Ty>, bool), Opaque, Label, Metadata, Token }
#[derive(Clone, Debug)]
pub struct TyInfo { pub k: TyK, pub size: u64, pub align: u64, pub offs: Vec<u64>, pub bits: u32 }
#[derive(Default)]
pub struct Types { pub t: Vec<TyInfo>, map: HashMap<TyK, Ty> }
impl Types {
    pub fn get(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.map.get(&k) { return t }
        let (mut size, mut align, mut offs, mut bits) = (0u64, 1u64, vec![], 0u32);
        match &k {
            TyK::Int(n) => { bits = *n; let b = (*n as u64 + 7) / 8; align = b.next_power_of_two().min(16).max(1); size = (b + align - 1) / align * align; }
            TyK::F32 => { bits = 32; size = 4; align = 4 }
            TyK::Half => { bits = 16; size = 2; align = 2 }
            TyK::F64 => { bits = 64; size = 8; align = 8 }
            TyK::F128 => { bits = 128; size = 16; align = 16 }
            TyK::Ptr => { bits = 64; size = 8; align = 8 }
            TyK::Vec(n, e) => { let eb = self.t[*e as usize].bits as u64; let by = (eb * n + 7) / 8; size = by.next_power_of_two(); align = size.min(16); }
            TyK::Array(n, e) => { size = n * self.t[*e as usize].size; align = self.t[*e as usize].align }
            TyK::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs { let fi = &self.t[*f as usize]; if !*packed { o = (o + fi.align - 1) / fi.align * fi.align; align = align.max(fi.align) } offs.push(o); o += fi.size }
                size = (o + align - 1) / align * align;
            }
            _ => {}
        }
        let id = self.t.len() as Ty;
        self.t.push(TyInfo { k: k.clone(), size, align, offs, bits });
        self.map.insert(k, id);
        id
    }
    pub fn k(&self, t: Ty) -> &TyK { &self.t[t as usize].k }
    pub fn size(&self, t: Ty) -> u64 { self.t[t as usize].size }
    pub fn bits(&self, t: Ty) -> u32 { self.t[t as usize].bits }
}

#[derive(Clone, Debug)]
pub enum C { // constant
    Int(u128), Undef, Zero, Global(u32), Func(u32), Agg(Vec<C>), Bytes(Rc<Vec<u8>>),
    /// address + byte offset
    Gep(Box<C>, Vec<(Ty, C)>, Ty), // base, indices with their types, source elem ty
    Cast(Ty, Ty, Box<C>), Bin(String, Ty, Box<C>, Box<C>),
}
#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(u32) } // register | constant-pool index
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IP { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd) }
#[derive(Clone, Debug)]
pub enum I {
    Bin(B, Ty, Opd, Opd), FNeg(Ty, Opd), ICmp(IP, Ty, Opd, Opd), FCmp(String, Ty, Opd, Opd),
    Load(Ty, Opd), Store(Ty, Opd, Opd), Alloca(u64, Opd, Ty),
    Gep(Ty, Opd, u64, Vec<(Opd, Ty, u64)>), // result ty, base, const offset, scaled
    Cast(Cast, Ty, Opd, Ty), Select(Ty, Opd, Ty, Opd, Opd),
    ExtractValue(Opd, Ty, Vec<u32>), InsertValue(Opd, Ty, Opd, Ty, Vec<u32>),
    ExtractElement(Ty, Opd, Opd), InsertElement(Ty, Opd, Opd, Opd), Shuffle(Ty, Opd, Opd, Vec<i64>),
    Call(Ty, Callee, Vec<(Ty, Opd)>), Freeze(Opd), Fence,
    CmpXchg(Ty, Opd, Opd, Opd), AtomicRmw(String, Ty, Opd, Opd),
    Br(u32), CondBr(Opd, u32, u32), Switch(Ty, Opd, u32, Vec<(u128, u32)>), Ret(Option<(Ty, Opd)>), Unreachable,
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub i: I, pub line: u32 }
pub const NODST: u32 = u32::MAX;
#[derive(Clone, Debug, Default)]
pub struct Block { pub name: String, pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub insts: Vec<Inst> }
#[derive(Debug, Default)]
pub struct Body { pub blocks: Vec<Block>, pub nregs: u32, pub nparams: u32 }
pub struct Func { pub name: String, pub ret: Ty, pub params: Vec<Ty>, pub vararg: bool, pub src: Option<(usize, usize)>, pub body: OnceCell<Rc<Body>>, pub header: (usize, usize), pub weak: bool }
pub struct Global { pub name: String, pub ty: Ty, pub konst: bool, pub init: Option<C>, pub align: u64, pub weak: bool, pub src: (usize, usize) }

pub struct Module {
    pub text: Vec<u8>,
    pub types: std::cell::RefCell<Types>,
    pub named: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub consts: std::cell::RefCell<Vec<(Ty, C)>>,
}

pub struct Lx<'a> { pub s: &'a [u8], pub p: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lx<'a> {
    fn ws(&mut self) { while self.p < self.s.len() { let c = self.s[self.p]; if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.p += 1 } else if c == b';' { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 } } else { break } } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)) } }
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(120); let b = (self.p + 120).min(self.s.len());
        eprintln!("IR parse error: {} near <<{}>>HERE<<{}>>", m, String::from_utf8_lossy(&self.s[a..self.p.min(self.s.len())]), String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..b]));
        std::process::exit(4)
    }
    fn peek_word(&mut self) -> &'a str { self.ws(); let mut q = self.p; while q < self.s.len() && idc(self.s[q]) { q += 1 } unsafe { std::str::from_utf8_unchecked(&self.s[self.p..q]) } }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.p += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.p += w.len(); true } else { false } }
    fn num(&mut self) -> u64 { let w = self.word(); match w.parse() { Ok(v) => v, Err(_) => self.fail("number") } }
    fn name(&mut self) -> String { // after % or @
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1; let st = self.p; while self.s[self.p] != b'"' { self.p += 1 }
            let r = unescape(&self.s[st..self.p]); self.p += 1; String::from_utf8_lossy(&r).into_owned()
        } else { let st = self.p; while self.p < self.s.len() && idc(self.s[self.p]) { self.p += 1 } String::from_utf8_lossy(&self.s[st..self.p]).into_owned() }
    }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0; loop { let c = self.s[self.p]; if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } } if c == b'(' { d += 1 } if c == b')' { d -= 1 } self.p += 1; if d == 0 { break } }
    }
}
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len()); let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2 } else { o.push(hx(b[i + 1]) * 16 + hx(b[i + 2])); i += 3 } } else { o.push(b[i]); i += 1 } }
    o
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module { text: vec![], types: Default::default(), named: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new(), consts: Default::default() };
        // line index of top-level entities
        let mut i = 0; let n = text.len();
        let mut fdefs = vec![]; let mut gdefs = vec![]; let mut tdefs = vec![];
        while i < n {
            let e = memchr(b'\n', &text[i..]).map(|k| i + k).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                // find "\n}" end
                let mut j = e;
                loop { match memchr(b'\n', &text[j..]) { Some(k) => { j += k + 1; if text[j] == b'}' { break } } None => break } }
                fdefs.push((i, e, Some((e + 1, j))));
                i = j + 2; continue;
            } else if line.starts_with(b"declare ") { fdefs.push((i, e, None)) }
            else if line.starts_with(b"@") { gdefs.push((i, e)) }
            else if line.starts_with(b"%") { tdefs.push((i, e)) }
            i = e + 1;
        }
        for (a, b) in tdefs { // %name = type { ... }
            let mut l = Lx { s: &text[..b], p: a + 1 };
            let nm = l.name(); l.expect(b'='); l.word();
            let t = if l.peek_word() == "opaque" { m.types.borrow_mut().get(TyK::Opaque) } else { m.ty(&mut l) };
            m.named.insert(nm, t);
        }
        for (a, b, body) in fdefs {
            let mut l = Lx { s: &text[..b], p: a };
            l.word();
            // linkage etc. words until a type
            let mut weak = false;
            loop {
                let w = l.peek_word();
                if is_type_start(&mut l) { break }
                if w == "extern_weak" { weak = true }
                if w.is_empty() { l.fail("define") }
                l.p += w.len();
                l.ws();
                if l.s[l.p] == b'(' { l.skip_parens() }
                if w == "align" || w == "addrspace" { l.word(); }
            }
            let ret = m.ty(&mut l);
            l.expect(b'@');
            let nm = l.name();
            l.expect(b'(');
            let mut params = vec![]; let mut vararg = false;
            while !l.eat(b')') {
                if l.peek() == b'.' { l.p += 3; vararg = true; continue }
                let t = m.ty(&mut l); params.push(t);
                m.skip_attrs(&mut l);
                if l.peek() == b'%' { l.p += 1; l.name(); }
                l.eat(b',');
            }
            let id = m.funcs.len() as u32;
            m.fidx.insert(nm.clone(), id);
            m.funcs.push(Func { name: nm, ret, params, vararg, src: body, body: OnceCell::new(), header: (a, b), weak });
        }
        for (a, b) in &gdefs {
            let mut l = Lx { s: &text[..*b], p: a + 1 };
            let nm = l.name();
            if nm.starts_with("llvm.") { continue }
            l.expect(b'=');
            let mut konst = false; let mut weak = false; let mut alias = false; let mut ext = false;
            loop {
                let w = l.peek_word();
                match w {
                    "constant" => { konst = true; l.p += w.len(); break }
                    "global" => { l.p += w.len(); break }
                    "alias" => { alias = true; l.p += w.len(); break }
                    "ifunc" => l.fail("ifunc"),
                    "extern_weak" => { weak = true; ext = true }
                    "external" => ext = true,
                    "" => l.fail("global"),
                    _ => {}
                }
                l.p += w.len();
                l.ws(); if l.s[l.p] == b'(' { l.skip_parens() }
            }
            if alias {
                // alias <ty>, ptr @target
                let s = &text[l.p..*b];
                let k = s.windows(5).position(|w| w == b"ptr @").unwrap();
                let mut l2 = Lx { s: &text[..*b], p: l.p + k + 5 };
                // last occurrence
                let mut kk = k; for (q, w) in s.windows(5).enumerate() { if w == b"ptr @" { kk = q } }
                l2.p = l.p + kk + 5;
                let t = l2.name();
                m.aliases.insert(nm, t);
                continue;
            }
            let ty = m.ty(&mut l);
            let id = m.globals.len() as u32;
            m.gidx.insert(nm.clone(), id);
            m.globals.push(Global { name: nm, ty, konst, init: None, align: 16, weak, src: if ext { (0, 0) } else { (l.p, *b) } });
        }
        m.text = text;
        let text = std::mem::take(&mut m.text);
        let al: Vec<(String, String)> = m.aliases.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (a, b) in al {
            let mut b = b; while let Some(c) = m.aliases.get(&b) { b = c.clone() }
            if let Some(&f) = m.fidx.get(&b) { m.fidx.insert(a, f); } else if let Some(&g) = m.gidx.get(&b) { m.gidx.insert(a, g); }
        }
        for g in 0..m.globals.len() {
            let (p, e) = m.globals[g].src;
            if p == 0 { continue }
            let mut l = Lx { s: &text[..e], p };
            let t = m.globals[g].ty;
            let c = m.konst(&mut l, t);
            m.globals[g].init = Some(c);
            while l.eat(b',') { if l.eat_word("align") { m.globals[g].align = l.num() } else { break } }
        }
        m.text = text;
        m
    }
    fn t(&self, k: TyK) -> Ty { self.types.borrow_mut().get(k) }
    pub fn ty(&self, l: &mut Lx) -> Ty {
        let mut t = match l.peek() {
            b'{' => { l.p += 1; let mut v = vec![]; while !l.eat(b'}') { v.push(self.ty(l)); l.eat(b','); } self.t(TyK::Struct(v, false)) }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' { l.p += 1; let mut v = vec![]; while !l.eat(b'}') { v.push(self.ty(l)); l.eat(b','); } l.expect(b'>'); self.t(TyK::Struct(v, true)) }
                else { let n = l.num(); l.word(); let e = self.ty(l); l.expect(b'>'); self.t(TyK::Vec(n, e)) }
            }
            b'[' => { l.p += 1; let n = l.num(); l.word(); let e = self.ty(l); l.expect(b']'); self.t(TyK::Array(n, e)) }
            b'%' => { l.p += 1; let n = l.name(); *self.named.get(&n).unwrap_or_else(|| l.fail("named type")) }
            _ => {
                let w = l.word();
                match w {
                    "void" => self.t(TyK::Void), "ptr" => { if l.peek_word() == "addrspace" { l.word(); l.ws(); l.skip_parens(); } self.t(TyK::Ptr) }
                    "float" => self.t(TyK::F32), "double" => self.t(TyK::F64), "half" => self.t(TyK::Half), "fp128" => self.t(TyK::F128),
                    "label" => self.t(TyK::Label), "metadata" => self.t(TyK::Metadata), "token" => self.t(TyK::Token),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => self.t(TyK::Int(w[1..].parse().unwrap())),
                    _ => l.fail("type"),
                }
            }
        };
        // function type: ret (args)
        let save = l.p;
        if l.peek() == b'(' { l.skip_parens(); t = self.t_fn(t) } else { l.p = save }
        t
    }
    fn t_fn(&self, ret: Ty) -> Ty { ret }
    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            let w = l.peek_word();
            if w.is_empty() { if l.peek() == b'"' { l.p += 1; while l.s[l.p] != b'"' { l.p += 1 } l.p += 1; if l.peek() == b'=' { l.p += 1; l.ws(); l.p += 1; while l.s[l.p] != b'"' { l.p += 1 } l.p += 1; } continue } return }
            let c = w.as_bytes()[0];
            if c.is_ascii_digit() || c == b'-' { return }
            match w { "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "shl" | "splat" | "c" | "blockaddress" | "asm" | "dso_local_equivalent" | "addrspacecast" | "nan" | "inf" => return, _ => {} }
            if w == "f" && false { return }
            l.p += w.len();
            if w == "align" { l.ws(); if l.s[l.p] == b'(' { l.skip_parens() } else { l.word(); } continue }
            if l.peek() == b'(' { l.skip_parens() }
        }
    }
    fn fconst(&self, l: &mut Lx, t: Ty, w: &str) -> u128 {
        let k = self.types.borrow().k(t).clone();
        let f32_ = k == TyK::F32;
        // textual forms: 0xHEX (double bits), f0xHEX (raw bits of type), decimal, +inf, nan ...
        if let Some(h) = w.strip_prefix("f0x") { return u128::from_str_radix(h, 16).unwrap() }
        if let Some(h) = w.strip_prefix("0x") { let v = u64::from_str_radix(h, 16).unwrap_or_else(|_| l.fail("hex float")); return if f32_ { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 } }
        let v: f64 = match w { "inf" | "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" | "qnan" | "+nan" | "+qnan" => f64::NAN, _ => w.parse().unwrap_or_else(|_| l.fail("float const")) };
        if f32_ { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
    }
    pub fn konst(&self, l: &mut Lx, t: Ty) -> C {
        let k = self.types.borrow().k(t).clone();
        match l.peek() {
            b'@' => { l.p += 1; let n = l.name(); if let Some(&f) = self.fidx.get(&n) { return C::Func(f) } if let Some(&g) = self.gidx.get(&n) { return C::Global(g) } if n.starts_with("llvm.") { return C::Int(0) } l.fail(&format!("unknown symbol {}", n)) }
            b'{' => { l.p += 1; return self.agg(l, b'}') }
            b'[' => { l.p += 1; return self.agg(l, b']') }
            b'<' => { l.p += 1; if l.peek() == b'{' { l.p += 1; let a = self.agg(l, b'}'); l.expect(b'>'); return a } return self.agg(l, b'>') }
            b'+' if l.s[l.p..].starts_with(b"+nan(0x") => { l.p += 7; let w = l.word(); let v = u64::from_str_radix(w, 16).unwrap_or_else(|_| l.fail("nan payload")); l.expect(b')'); return C::Int(if k == TyK::F32 { 0x7fc0_0000 | v as u128 } else { 0x7ff8_0000_0000_0000 | v as u128 }) }
            b'+' => { l.p += 1; let w = l.word(); let w2 = if l.s[l.p] == b'+' { l.p += 1; format!("{}+{}", w, l.word()) } else { w.to_string() }; return C::Int(self.fconst(l, t, &w2)) }
            b'%' => l.fail("register in const"),
            _ => {}
        }
        let w = l.peek_word();
        match w {
            "c" => { l.p += 1; l.expect(b'"'); let st = l.p; while l.s[l.p] != b'"' { l.p += 1 } let r = unescape(&l.s[st..l.p]); l.p += 1; C::Bytes(Rc::new(r)) }
            "true" => { l.p += 4; C::Int(1) }
            "false" => { l.p += 5; C::Int(0) }
            "null" | "none" => { l.p += 4; C::Int(0) }
            "undef" => { l.p += 5; C::Undef }
            "poison" => { l.p += 6; C::Undef }
            "zeroinitializer" => { l.p += w.len(); C::Zero }
            "splat" => { l.p += 5; l.expect(b'('); let et = self.ty(l); let c = self.konst(l, et); l.expect(b')'); let n = match k { TyK::Vec(n, _) | TyK::Array(n, _) => n, _ => l.fail("splat") }; C::Agg(vec![c; n as usize]) }
            "getelementptr" => {
                l.p += w.len();
                while l.peek() != b'(' { l.word(); if l.peek() == b'(' { // inrange(...) or the list
                    let save = l.p; let prev = &l.s[..save]; let _ = prev; if l.s[..l.p].ends_with(b"inrange") { l.skip_parens(); } } }
                l.expect(b'(');
                let st = self.ty(l); l.expect(b',');
                let bt = self.ty(l); let b = self.konst(l, bt);
                let mut idx = vec![];
                while l.eat(b',') { let it = self.ty(l); let c = self.konst(l, it); idx.push((it, c)) }
                l.expect(b')');
                C::Gep(Box::new(b), idx, st)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                l.p += w.len(); l.expect(b'('); let ft = self.ty(l); let c = self.konst(l, ft); l.word(); let tt = self.ty(l); l.expect(b')');
                C::Cast(ft, tt, Box::new(c))
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                l.p += w.len(); while l.peek() != b'(' { l.word(); }
                l.expect(b'('); let t1 = self.ty(l); let a = self.konst(l, t1); l.expect(b','); let t2 = self.ty(l); let b = self.konst(l, t2); l.expect(b')');
                C::Bin(w.to_string(), t1, Box::new(a), Box::new(b))
            }
            _ => {
                // number
                let st = l.p;
                l.p += w.len();
                let mut s = String::from_utf8_lossy(&l.s[st..l.p]).into_owned();
                if l.p < l.s.len() && l.s[l.p] == b'+' { l.p += 1; let w2 = l.word(); s = format!("{}+{}", s, w2) }
                match k {
                    TyK::F32 | TyK::F64 | TyK::Half | TyK::F128 => C::Int(self.fconst(l, t, &s)),
                    TyK::Int(b) => { let v: u128 = if let Some(x) = s.strip_prefix('-') { (x.parse::<u128>().unwrap_or_else(|_| l.fail("int"))).wrapping_neg() } else { s.parse::<u128>().unwrap_or_else(|_| l.fail("int const")) }; C::Int(v & crate::expr::mask(b)) }
                    TyK::Ptr => C::Int(0),
                    _ => l.fail("constant"),
                }
            }
        }
    }
    fn agg(&self, l: &mut Lx, end: u8) -> C {
        let mut v = vec![];
        while !l.eat(end) { let t = self.ty(l); v.push(self.konst(l, t)); l.eat(b','); }
        C::Agg(v)
    }
    pub fn body(&self, f: u32) -> Option<Rc<Body>> {
        let fu = &self.funcs[f as usize];
        let (a, b) = fu.src?;
        Some(fu.body.get_or_init(|| Rc::new(self.parse_body(f, a, b))).clone())
    }
    fn kid(&self, t: Ty, c: C) -> u32 { let mut cs = self.consts.borrow_mut(); cs.push((t, c)); cs.len() as u32 - 1 }

    fn parse_body(&self, f: u32, a: usize, b: usize) -> Body {
        let fu = &self.funcs[f as usize];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        // params
        {
            let mut l = Lx { s: &self.text[..fu.header.1], p: fu.header.0 };
            while l.s[l.p] != b'@' { l.p += 1 } l.p += 1; l.name(); l.expect(b'(');
            let mut k = 0;
            while !l.eat(b')') {
                if l.peek() == b'.' { l.p += 3; continue }
                self.ty(&mut l); self.skip_attrs(&mut l);
                let n = if l.peek() == b'%' { l.p += 1; l.name() } else { k.to_string() };
                regs.insert(n, nregs); nregs += 1; k += 1;
                l.eat(b',');
            }
        }
        let nparams = nregs;
        // pass 1: split lines, find labels
        let mut bidx: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        let text = &self.text[..b];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut i = a;
        while i < b { let e = memchr(b'\n', &text[i..b]).map(|k| i + k).unwrap_or(b); if e > i { lines.push((i, e)) } i = e + 1 }
        for (s, e) in &lines {
            let ln = &text[*s..*e];
            if ln[0] != b' ' && ln[0] != b'}' && ln[0] != b';' {
                let mut l = Lx { s: &text[..*e], p: *s };
                let n = l.name();
                bidx.insert(n.clone(), bidx.len() as u32);
            } else if bidx.is_empty() && ln[0] == b' ' { bidx.insert(nparams.to_string(), 0); }
        }
        let mut cur: Option<usize> = None;
        let mut li = 0;
        while li < lines.len() {
            let (s, e) = lines[li]; li += 1;
            let ln = &text[s..e];
            if ln[0] == b'}' { break }
            if ln[0] == b';' { continue }
            if ln[0] != b' ' { let mut l = Lx { s: &text[..e], p: s }; let n = l.name(); blocks.push(Block { name: n, ..Default::default() }); cur = Some(blocks.len() - 1); continue }
            if cur.is_none() { blocks.push(Block { name: nparams.to_string(), ..Default::default() }); cur = Some(0) }
            let mut e2 = e;
            // multi-line switch
            let tl = { let mut x = s; while text[x] == b' ' { x += 1 } &text[x..e] };
            if tl.starts_with(b"switch ") { while text[lines[li - 1].0..lines[li - 1].1].iter().all(|c| *c != b']') || false { if li >= lines.len() { break } e2 = lines[li].1; li += 1; if text[lines[li - 1].0..lines[li - 1].1].contains(&b']') { break } } }
            let mut l = Lx { s: &text[..e2], p: s };
            let mut dst = NODST;
            if l.peek() == b'%' {
                l.p += 1; let n = l.name(); l.expect(b'=');
                dst = *regs.entry(n).or_insert_with(|| { nregs += 1; nregs - 1 });
            }
            let line = s as u32;
            let op = l.word();
            // dbg records
            if op.is_empty() { continue }
            macro_rules! opd { ($l:expr, $t:expr) => {{ let t = $t; if $l.peek() == b'%' { $l.p += 1; let n = $l.name(); Opd::R(*regs.entry(n).or_insert_with(|| { nregs += 1; nregs - 1 })) } else { let c = self.konst($l, t); Opd::K(self.kid(t, c)) } }} }
            macro_rules! lab { ($l:expr) => {{ $l.word(); $l.expect(b'%'); let n = $l.name(); match bidx.get(&n) { Some(x) => *x, None => $l.fail("label") } }} }
            let l = &mut l;
            let blk = cur.unwrap();
            let ins = match op {
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    while matches!(l.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { l.word(); }
                    let t = self.ty(l); let x = opd!(l, t); l.expect(b','); let y = opd!(l, t);
                    let bo = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem };
                    I::Bin(bo, t, x, y)
                }
                "fneg" => { while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { l.word(); } let t = self.ty(l); let x = opd!(l, t); I::FNeg(t, x) }
                "icmp" => {
                    let mut p = l.word(); if p == "samesign" { p = l.word() }
                    let t = self.ty(l); let x = opd!(l, t); l.expect(b','); let y = opd!(l, t);
                    let ip = match p { "eq" => IP::Eq, "ne" => IP::Ne, "ugt" => IP::Ugt, "uge" => IP::Uge, "ult" => IP::Ult, "ule" => IP::Ule, "sgt" => IP::Sgt, "sge" => IP::Sge, "slt" => IP::Slt, "sle" => IP::Sle, _ => l.fail("icmp pred") };
                    I::ICmp(ip, t, x, y)
                }
                "fcmp" => {
                    let mut p = l.word(); while matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { p = l.word() }
                    let t = self.ty(l); let x = opd!(l, t); l.expect(b','); let y = opd!(l, t);
                    I::FCmp(p.to_string(), t, x, y)
                }
                "load" => {
                    while matches!(l.peek_word(), "volatile" | "atomic") { l.word(); }
                    let t = self.ty(l); l.expect(b','); let pt = self.ty(l); let p = opd!(l, pt); I::Load(t, p)
                }
                "store" => {
                    while matches!(l.peek_word(), "volatile" | "atomic") { l.word(); }
                    let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let pt = self.ty(l); let p = opd!(l, pt); I::Store(t, v, p)
                }
                "alloca" => {
                    while matches!(l.peek_word(), "inalloca" | "swifterror") { l.word(); }
                    let t = self.ty(l); let sz = self.types.borrow().size(t);
                    let mut n = Opd::K(self.kid(self.t(TyK::Int(64)), C::Int(1))); let mut nt = self.t(TyK::Int(64));
                    if l.eat(b',') { if l.peek_word() != "align" && l.peek_word() != "addrspace" { nt = self.ty(l); n = opd!(l, nt) } }
                    I::Alloca(sz, n, nt)
                }
                "getelementptr" => {
                    while matches!(l.peek_word(), "inbounds" | "nuw" | "nusw") { l.word(); }
                    let st = self.ty(l); l.expect(b','); let bt = self.ty(l); let base = opd!(l, bt);
                    let mut off = 0u64; let mut sc = vec![]; let mut curt = st; let mut first = true;
                    while l.eat(b',') {
                        if l.peek() == b'!' { break }
                        let it = self.ty(l); let o = opd!(l, it);
                        let (scale, nt, fixed) = {
                            let ts = self.types.borrow();
                            if first { (ts.size(curt), curt, None) } else {
                                match ts.k(curt).clone() {
                                    TyK::Array(_, e) => (ts.size(e), e, None),
                                    TyK::Vec(_, e) => ((ts.bits(e) as u64 + 7) / 8, e, None),
                                    TyK::Struct(fs, _) => { let ix = match &o { Opd::K(k) => match &self.consts.borrow()[*k as usize].1 { C::Int(v) => *v as usize, C::Zero => 0, _ => l.fail("gep struct idx") }, _ => l.fail("gep struct reg") }; (0, fs[ix], Some(ts.t[curt as usize].offs[ix])) }
                                    _ => l.fail("gep type"),
                                }
                            }
                        };
                        first = false;
                        curt = nt;
                        if let Some(fo) = fixed { off = off.wrapping_add(fo); continue }
                        let kv = match &o { Opd::K(k) => match &self.consts.borrow()[*k as usize].1 { C::Int(v) => { let w = self.types.borrow().bits(it); Some(crate::expr::sx(*v, w) as i64 as u64) } C::Zero => Some(0), _ => None }, _ => None };
                        if let Some(v) = kv { off = off.wrapping_add(v.wrapping_mul(scale)) } else { sc.push((o, it, scale)) }
                    }
                    I::Gep(bt, base, off, sc)
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                    while matches!(l.peek_word(), "nuw" | "nsw" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { l.word(); }
                    let ft = self.ty(l); let v = opd!(l, ft); l.word(); let tt = self.ty(l);
                    let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::BitCast, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptrunc" => Cast::FpTrunc, _ => Cast::FpExt };
                    I::Cast(c, ft, v, tt)
                }
                "select" => {
                    while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { l.word(); }
                    let ct = self.ty(l); let c = opd!(l, ct); l.expect(b','); let t = self.ty(l); let x = opd!(l, t); l.expect(b','); let t2 = self.ty(l); let y = opd!(l, t2); I::Select(ct, c, t, x, y)
                }
                "phi" => {
                    while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { l.word(); }
                    let t = self.ty(l); let mut v = vec![];
                    loop { l.expect(b'['); let x = opd!(l, t); l.expect(b','); l.expect(b'%'); let n = l.name(); l.expect(b']'); v.push((*bidx.get(&n).unwrap_or_else(|| l.fail("phi label")), x)); let sv = l.p; if !l.eat(b',') { break } if l.peek() != b'[' { l.p = sv; break } }
                    blocks[blk].phis.push((dst, t, v));
                    continue;
                }
                "extractvalue" => { let t = self.ty(l); let v = opd!(l, t); let mut ix = vec![]; while l.eat(b',') { if l.peek() == b'!' { break } ix.push(l.num() as u32) } I::ExtractValue(v, t, ix) }
                "insertvalue" => { let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let t2 = self.ty(l); let v2 = opd!(l, t2); let mut ix = vec![]; while l.eat(b',') { if l.peek() == b'!' { break } ix.push(l.num() as u32) } I::InsertValue(v, t, v2, t2, ix) }
                "extractelement" => { let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let t2 = self.ty(l); let x = opd!(l, t2); I::ExtractElement(t, v, x) }
                "insertelement" => { let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let t1 = self.ty(l); let y = opd!(l, t1); l.expect(b','); let t2 = self.ty(l); let x = opd!(l, t2); I::InsertElement(t, v, y, x) }
                "shufflevector" => {
                    let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let t1 = self.ty(l); let y = opd!(l, t1); l.expect(b','); let mt = self.ty(l); let m = self.konst(l, mt);
                    let n = match self.types.borrow().k(mt) { TyK::Vec(n, _) => *n as usize, _ => 0 };
                    let mv = match m { C::Agg(v) => v.iter().map(|c| match c { C::Int(x) => *x as i32 as i64, _ => -1 }).collect(), C::Zero => vec![0; n], _ => vec![-1; n] };
                    I::Shuffle(t, v, y, mv)
                }
                "freeze" => { let t = self.ty(l); let v = opd!(l, t); I::Freeze(v) }
                "fence" => I::Fence,
                "cmpxchg" => {
                    while matches!(l.peek_word(), "volatile" | "weak") { l.word(); }
                    let pt = self.ty(l); let p = opd!(l, pt); l.expect(b','); let t = self.ty(l); let x = opd!(l, t); l.expect(b','); let t2 = self.ty(l); let y = opd!(l, t2); I::CmpXchg(t, p, x, y)
                }
                "atomicrmw" => {
                    while matches!(l.peek_word(), "volatile") { l.word(); }
                    let o = l.word().to_string(); let pt = self.ty(l); let p = opd!(l, pt); l.expect(b','); let t = self.ty(l); let x = opd!(l, t); I::AtomicRmw(o, t, p, x)
                }
                "br" => {
                    if l.peek_word() == "label" { I::Br(lab!(l)) } else { let t = self.ty(l); let c = opd!(l, t); l.expect(b','); let x = lab!(l); l.expect(b','); let y = lab!(l); I::CondBr(c, x, y) }
                }
                "switch" => {
                    let t = self.ty(l); let v = opd!(l, t); l.expect(b','); let d = lab!(l); l.expect(b'[');
                    let mut cs = vec![];
                    while !l.eat(b']') { let ct = self.ty(l); let c = match self.konst(l, ct) { C::Int(v) => v, C::Zero => 0, _ => l.fail("switch const") }; l.expect(b','); cs.push((c, lab!(l))) }
                    I::Switch(t, v, d, cs)
                }
                "ret" => { let t = self.ty(l); if *self.types.borrow().k(t) == TyK::Void { I::Ret(None) } else { let v = opd!(l, t); I::Ret(Some((t, v))) } }
                "unreachable" => I::Unreachable,
                "tail" | "musttail" | "notail" | "call" => {
                    if op != "call" { l.word(); }
                    // fast-math, cc, ret attrs
                    loop { if is_type_start(l) { break } let w = l.word(); if w.is_empty() { l.fail("call") } if w == "align" { l.word(); } else { let sv = l.p; if l.peek() == b'(' { l.skip_parens() } else { l.p = sv } } }
                    let rt = self.ty(l);
                    let callee = match l.peek() {
                        b'@' => { l.p += 1; let n = l.name();
                            if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.invariant") || n == "llvm.donothing" { continue }
                            match self.fidx.get(&n) { Some(f) => Callee::Direct(*f), None => l.fail(&format!("callee {}", n)) } }
                        b'%' => { l.p += 1; let n = l.name(); Callee::Indirect(Opd::R(*regs.entry(n).or_insert_with(|| { nregs += 1; nregs - 1 }))) }
                        _ => {
                            if l.peek_word() == "asm" {
                                // inline asm: empty template (black_box, compiler fence) is a no-op; anything else unsupported
                                l.word(); while matches!(l.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { l.word(); }
                                l.expect(b'"'); let st = l.p; while l.s[l.p] != b'"' { l.p += 1 } let empty = l.p == st; let asm = String::from_utf8_lossy(&l.s[st..l.p]).into_owned(); l.p += 1;
                                if empty { continue }
                                eprintln!("note: inline asm {:?} in {}", asm, fu.name);
                                blocks[blk].insts.push(Inst { dst: NODST, i: I::Unreachable, line }); continue;
                            }
                            let c = self.konst(l, self.t(TyK::Ptr)); Callee::Indirect(Opd::K(self.kid(self.t(TyK::Ptr), c)))
                        }
                    };
                    l.expect(b'(');
                    let mut args = vec![];
                    while !l.eat(b')') {
                        let t = self.ty(l);
                        if *self.types.borrow().k(t) == TyK::Metadata { // skip
                            let mut d = 0; loop { let c = l.s[l.p]; if c == b'(' { d += 1 } if c == b')' { if d == 0 { break } d -= 1 } if c == b',' && d == 0 { break } l.p += 1 }
                            l.eat(b','); continue;
                        }
                        self.skip_attrs(l);
                        let o = opd!(l, t);
                        args.push((t, o));
                        l.eat(b',');
                    }
                    I::Call(rt, callee, args)
                }
                _ => l.fail(&format!("instruction {}", op)),
            };
            blocks[blk].insts.push(Inst { dst, i: ins, line });
        }
        Body { blocks, nregs, nparams }
    }
}
fn is_type_start(l: &mut Lx) -> bool {
    match l.peek() { b'{' | b'<' | b'[' | b'%' => return true, _ => {} }
    let w = l.peek_word();
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
pub fn memchr(c: u8, s: &[u8]) -> Option<usize> { s.iter().position(|x| *x == c) }
