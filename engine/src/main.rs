mod exec; mod expr; mod ir; mod solver;
use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"'); o
}
fn ins(v: &[(String, u32, u128)]) -> String { format!("[{}]", v.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", js(n), w, k)).collect::<Vec<_>>().join(",")) }
fn sam(s: &Sample) -> String { format!("{{\"inputs\":{},\"trace\":[{}],\"covers\":[{}],\"outcome\":{}}}", ins(&s.inputs), s.trace.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","), s.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(","), js(&s.outcome)) }
fn report(ex: &Ex, wall: f64) -> String {
    let r = &ex.r; let s = &ex.s.st;
    let cov = r.covers.iter().map(|(k, (n, sm))| format!("{}:{{\"count\":{},\"witness\":{}}}", js(k), n, sm.as_ref().map(sam).unwrap_or("null".into()))).collect::<Vec<_>>().join(",");
    let vio = r.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), js(&v.loc), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), ins(&v.inputs))).collect::<Vec<_>>().join(",");
    let inc = r.incomplete.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",");
    let fs = r.funcs.iter().map(|f| js(&ex.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(",");
    format!("{{\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_symbolic\":{},\"assumes\":{},\"panics_caught\":{},\"queries\":{},\"query_cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"int_decided\":{},\"lia_decided\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_pc\":{},\"exprs\":{},\"wall_s\":{:.3},\"covers\":{{{}}},\"violations\":[{}],\"incomplete\":{{{}}},\"samples\":[{}],\"functions\":[{}]}}",
        r.paths, r.infeasible, r.forks, r.steps, r.asserts, r.asserts_sym, r.assumes, r.panics_caught, s.queries, s.cache_hits, s.sat, s.unsat, s.unknown, s.int_decided, s.order_decided, s.time, s.max_time, r.max_pc, ex.x.nodes.len(), wall, cov, vio, inc, r.samples.iter().map(sam).collect::<Vec<_>>().join(","), fs)
}
static mut SH: *const AtomicU64 = std::ptr::null();
static mut JOBS: u64 = 0;
static mut CHILD: bool = false;
static mut LAST: f64 = 0.0;
fn fresh(ex: &mut Ex) {
    ex.r = Default::default();
    ex.s.st = Default::default();
    ex.shared_stop = unsafe { SH.add(1) };
    unsafe { LAST = ex.start.elapsed().as_secs_f64() }
}
/// A busy worker hands half of its pending states to a new worker when fewer than JOBS are running.
fn split(ex: &mut Ex) {
    unsafe {
        let now = ex.start.elapsed().as_secs_f64();
        if now - LAST < 0.3 || ex.stop_all { return }
        let run = &*SH.add(2);
        let n = run.load(Ordering::SeqCst);
        if n >= JOBS || run.compare_exchange(n, n + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() { return }
        let p = fork();
        if p < 0 { run.fetch_sub(1, Ordering::SeqCst); return }
        let all = std::mem::take(&mut ex.work);
        let mine = (p == 0) as usize;
        ex.work = all.into_iter().enumerate().filter(|(i, _)| i % 2 == mine).map(|(_, s)| s).collect();
        LAST = now;
        if p == 0 { CHILD = true; fresh(ex) }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string()) };
    if a.len() < 2 || a[1] == "--version" { println!("symex, {}", solver::z3_version()); return }
    if a[1] == "--selftest" { selftest(get("--rounds", "2000").parse().unwrap()); return }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&a[1]);
    let entry = get("--entry", "main");
    let out = get("--out", "/dev/stdout");
    let jobs: usize = get("--jobs", "1").parse().unwrap();
    let time: f64 = get("--time", "600").parse().unwrap();
    let mut params = HashMap::new();
    for i in 0..a.len() { if a[i] == "--param" { let (k, v) = a[i + 1].split_once('=').unwrap(); params.insert(k.to_string(), v.parse().unwrap()); } }
    let o = Opts { time, steps: get("--steps", "200000000").parse().unwrap(), max_viol: get("--max-violations", "1").parse().unwrap(), samples: get("--samples", "6").parse().unwrap(), mux_read: get("--mux-read", "300").parse().unwrap(), mux_write: get("--mux-write", "40").parse().unwrap(), verbose: a.iter().any(|x| x == "-v"), params, leak: false };
    let qt: u32 = get("--query-timeout", "60000").parse().unwrap();
    let mut ex = Ex::new(&m, o, qt);
    let st = ex.init_state(&entry);
    if ex.o.verbose { eprintln!("loaded in {:.2}s: {} functions, {} globals", t0.elapsed().as_secs_f64(), m.funcs.len(), m.globals.len()) }
    ex.start = std::time::Instant::now();
    ex.s.deadline = Some(ex.start + std::time::Duration::from_secs_f64(time));
    ex.work.push(st);
    let mut parts: Vec<String> = vec![];
    if jobs <= 1 { ex.explore(); parts.push(report(&ex, ex.start.elapsed().as_secs_f64())) } else {
        // widen the frontier breadth-first, then hand the frontier to worker processes
        let target = jobs * 24;
        let t1 = std::time::Instant::now();
        while !ex.work.is_empty() && (ex.work.len() < target && t1.elapsed().as_secs_f64() < 1.0) && !ex.stop_all && !ex.out_of_time() {
            // take the shallowest state
            let k = (0..ex.work.len()).min_by_key(|i| ex.work[*i].depth).unwrap();
            let s = ex.work.remove(k);
            ex.run_state(s);
        }
        if ex.work.is_empty() || ex.stop_all { parts.push(report(&ex, ex.start.elapsed().as_secs_f64())) } else {
            let mut frontier = std::mem::take(&mut ex.work);
            frontier.sort_by_key(|s| s.depth);
            let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
            unsafe { (*sh).store(0, Ordering::SeqCst); (*sh.add(1)).store(0, Ordering::SeqCst); (*sh.add(2)).store(0, Ordering::SeqCst); }
            parts.push(report(&ex, ex.start.elapsed().as_secs_f64()));
            let tmp = format!("{}.{}", if out == "/dev/stdout" { "/tmp/symex".to_string() } else { out.clone() }, std::process::id());
            unsafe {
                prctl(36, 1, 0, 0, 0); // workers started by workers are waited for here
                JOBS = jobs as u64; SH = sh;
                (*sh.add(2)).store(jobs as u64, Ordering::SeqCst);
            }
            ex.split = Some(split);
            for _ in 0..jobs {
                if unsafe { fork() } == 0 {
                    fresh(&mut ex);
                    loop {
                        let i = unsafe { (*sh).fetch_add(1, Ordering::SeqCst) } as usize;
                        if i >= frontier.len() { break }
                        ex.work.push(frontier[i].clone());
                        ex.explore();
                        if ex.stop_all { unsafe { (*sh.add(1)).store(1, Ordering::SeqCst) } break }
                        if ex.out_of_time() { if i + 1 < frontier.len() { *ex.r.incomplete.entry("time limit".into()).or_default() += 1 } break }
                        if unsafe { CHILD } { break }
                    }
                    std::fs::write(format!("{}.{}", tmp, std::process::id()), report(&ex, ex.start.elapsed().as_secs_f64())).unwrap();
                    unsafe { (*sh.add(2)).fetch_sub(1, Ordering::SeqCst); }
                    std::process::exit(0);
                }
            }
            let (mut bad, mut st) = (0, 0);
            loop {
                let p = unsafe { waitpid(-1, &mut st, 0) };
                if p <= 0 { break }
                if st != 0 { bad += 1; unsafe { (*sh.add(1)).store(1, Ordering::SeqCst) } }
                let f = format!("{}.{}", tmp, p);
                if let Ok(s) = std::fs::read_to_string(&f) { parts.push(s) } else if st == 0 { bad += 1 }
                let _ = std::fs::remove_file(f);
            }
            if bad > 0 { parts.push("{\"incomplete\":{\"a worker process ended abnormally\":1}}".into()) }
        }
    }
    let s = format!("{{\"entry\":{},\"wall_s\":{:.3},\"parts\":[\n{}\n]}}\n", js(&entry), t0.elapsed().as_secs_f64(), parts.join(",\n"));
    std::fs::write(&out, s).unwrap();
    // the process exit code only says that the run itself worked
    std::process::exit(0);
}

/// Random terms: the simplifier, the bit-vector translation and the integer translation against plain evaluation.
fn selftest(rounds: u32) {
    use expr::*;
    let mut seed = 0x2545f4914f6cdd1du64;
    let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
    let (mut ints, mut bad) = (0, 0);
    let mut x = Ctx::new();
    let mut s = solver::Solver::new(20000);
    let mut vals = vec![];
    for round in 0..rounds {
        let ws = [1u32, 8, 16, 32, 64];
        let special = |r: u64, q: u64, w: u32| -> u128 { (match r % 6 { 0 => 0, 1 => 1, 2 => mask(w), 3 => 1u128 << (w - 1), 4 => (q % 20) as u128, _ => q as u128 }) & mask(w) };
        let mut pool: Vec<(E, u128)> = vec![];
        let mut cons = vec![];
        for i in 0..4 {
            let w = ws[(rnd() % 4 + 1) as usize];
            let v = x.var(&format!("v{}", i), w);
            let k = special(rnd(), rnd(), w);
            vals.push(k);
            let kc = x.c(w, k);
            cons.push(x.eq(v, kc));
            pool.push((v, k));
        }
        for _ in 0..(2 + rnd() % 10) {
            let (e, k) = pool[(rnd() % pool.len() as u64) as usize];
            let w = x.w(e);
            let same: Vec<(E, u128)> = pool.iter().copied().filter(|p| x.w(p.0) == w).collect();
            let (mut f, mut l) = same[(rnd() % same.len() as u64) as usize];
            let t = rnd() % 18;
            if rnd() % 2 == 0 || (3..=8).contains(&t) { l = special(rnd(), rnd(), w); if t >= 6 && t <= 8 { l %= w as u128 } f = x.c(w, l); }
            use O::*;
            let ops = [Add, Sub, Mul, UDiv, SDiv, URem, Shl, LShr, AShr, SRem, Eq, Ult, Slt, And, Or, Xor];
            let p = if (t as usize) < ops.len() {
                let o = ops[t as usize];
                if matches!(o, UDiv | SDiv | URem | SRem) { l = (l & mask(w - 1)).max(1); if w == 1 { continue } f = x.c(w, l) }
                let w2 = if matches!(o, Eq | Ult | Slt) { 1 } else { w };
                let Some(v) = fold(o, w2, w, k, l, 0) else { continue };
                let r = match o { Eq => x.eq(e, f), Ult => x.ult(e, f), Slt => x.slt(e, f), Shl | LShr | AShr => x.shift(o, e, f), Add => x.add(e, f), Sub => x.sub(e, f), Mul => x.mul(e, f), And => x.and(e, f), Or => x.or(e, f), Xor => x.xor(e, f), _ => x.bin(o, e, f) };
                (r, v)
            } else if t == 16 {
                let n = 1 + (rnd() % w as u64) as u32; let lo = (rnd() % (w - n + 1) as u64) as u32;
                (x.extract(e, lo, n), k >> lo & mask(n))
            } else {
                let w2 = *ws.iter().find(|q| **q > w).unwrap_or(&64);
                if w2 <= w { continue }
                if rnd() % 2 == 0 { (x.zext(e, w2), k) } else { (x.sext(e, w2), sx(k, w) as u128 & mask(w2)) }
            };
            let p = if rnd() % 4 == 0 { let c = pool.iter().copied().find(|p| x.w(p.0) == 1); match c { Some((c, cv)) if x.w(p.0) == w => (x.ite(c, p.0, e), if cv == 1 { p.1 } else { k }), _ => p } } else { p };
            pool.push(p);
        }
        let (e, k) = *pool.last().unwrap();
        let w = x.w(e);
        let ev = x.eval(e, &vals, &mut Default::default());
        if ev != k { bad += 1; println!("round {}: the simplifier changes a value: {} is {} and not {}", round, x.show(e, 9), ev, k) }
        let kc = x.c(w, k);
        let same = x.eq(e, kc);
        let diff = x.not(same);
        let (mut c1, mut c2) = (cons.clone(), cons.clone());
        c1.push(same); c2.push(diff);
        match s.integer(&mut x, &c1) { None => {} Some(solver::R::Sat(_)) => ints += 1, r => { bad += 1; println!("round {}: integers: {:?} for {} = {}", round, r, x.show(e, 9), k) } }
        match s.integer(&mut x, &c2) { None | Some(solver::R::Unsat) => {} r => { bad += 1; println!("round {}: integers: {:?} for {} != {}", round, r, x.show(e, 9), k) } }
        if !matches!(s.check(&mut x, &c1), solver::R::Sat(_)) || !matches!(s.check(&mut x, &c2), solver::R::Unsat) { bad += 1; println!("round {}: bit-vectors disagree on {}", round, x.show(e, 9)) }
    }
    println!("selftest: {} rounds, {} decided over the integers, {} failures", rounds, ints, bad);
    std::process::exit((bad > 0) as i32);
}
