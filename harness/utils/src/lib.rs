//! Shared utilities: bloom filter, hashes, de-duplication, time units, durations, byte sizes.
use std::hash::Hasher;
use std::time::Duration;
use utils::duration::CnosDuration;
use utils::precision::{timestamp_convert, Precision};
use utils::*;

fn prec(n: &str) -> Precision {
    match sx::choose(0, 2, n) {
        0 => Precision::MS,
        1 => Precision::US,
        _ => Precision::NS,
    }
}
fn per_ns(p: Precision) -> i128 {
    match p {
        Precision::MS => 1_000_000,
        Precision::US => 1_000,
        Precision::NS => 1,
    }
}
fn key(max: usize) -> Vec<u8> {
    let n = sx::choose(0, max, "keylen");
    sx::byte_vec(n, "key")
}

/// Counts its own drops through a shared cell: lost or doubly dropped elements show.
#[derive(Debug)]
struct Elem {
    key: u8,
    tag: u32,
    own: Box<u32>,
}

sx::harnesses! {
    fn bloom_no_false_negative() {
        let sizes = [1u64, 8, 9, 16, 64, 100, 512];
        let m = sizes[sx::choose(0, sx::param("sizes", 7) as usize - 1, "size")];
        let max = sx::param("keylen", 2) as usize;
        let (a, b) = (key(max), key(max));
        let mut f = BloomFilter::new(m);
        f.insert(&a);
        f.insert(&b);
        sx::check!(f.maybe_contains(&a), "the first inserted key must be reported as possibly present");
        sx::check!(f.maybe_contains(&b), "the second inserted key must be reported as possibly present");
        sx::check!(f.len() as u64 * 8 >= m, "the filter must have at least the requested bits");
        let g = BloomFilter::with_data(f.bytes());
        sx::check!(g.maybe_contains(&a), "an inserted key must survive storing and reloading the filter");
        sx::check!(g.maybe_contains(&b), "an inserted key must survive storing and reloading the filter");
        if a != b { sx::cover("distinct-keys") }
    }
    fn bloom_reload_identical() {
        let sizes = [8u64, 16, 32, 64, 128, 256, 512, 1024];
        let m = sizes[sx::choose(0, sx::param("sizes", 8) as usize - 1, "size")];
        let mut f = BloomFilter::new(m);
        let k = key(1);
        f.insert(&k);
        let mut g = BloomFilter::with_data(f.bytes());
        sx::check!(g.bytes() == f.bytes(), "reloading keeps the stored bits");
        sx::check!(f == g, "a reloaded filter must be the filter that was stored");
        let k2 = key(1);
        g.insert(&k2);
        sx::check!(g.maybe_contains(&k2), "a reloaded filter accepts new keys");
        sx::cover("reloaded");
    }
    fn bloom_default_size() {
        let mut f = BloomFilter::default();
        let k = sx::byte_vec(sx::choose(1, sx::param("keylen", 1) as usize, "keylen"), "key");
        f.insert(&k);
        sx::check!(f.maybe_contains(&k), "an inserted key must be reported as possibly present");
        let g = BloomFilter::with_data(f.bytes());
        sx::check!(g == f, "a reloaded filter must be the filter that was stored");
        sx::cover("default");
    }
    fn bloom_empty_filter() {
        // nothing inserted: never claims membership
        let f = BloomFilter::new(64);
        let k = key(2);
        sx::check!(!f.maybe_contains(&k), "an empty filter contains nothing");
        sx::cover("empty");
    }
    fn bkdr_streaming() {
        let n = sx::choose(0, sx::param("len", 6) as usize, "len");
        let d = sx::byte_vec(n, "d");
        let cut = sx::choose(0, n, "cut");
        let mut whole = BkdrHasher::new();
        whole.write(&d);
        let mut parts = BkdrHasher::new();
        parts.hash_with(&d[..cut]).hash_with(&d[cut..]);
        sx::check!(whole.number() == parts.number(), "hashing in pieces must equal hashing at once");
        let mut cont = BkdrHasher::new();
        cont.write(&d[..cut]);
        let mut cont = BkdrHasher::with_number(cont.finish());
        cont.write(&d[cut..]);
        sx::check!(cont.finish() == whole.number(), "a hash can be resumed from its number");
        // the published definition: h = h * 1313 + byte
        let mut h = 0u64;
        for c in &d { h = h.wrapping_mul(1313).wrapping_add(*c as u64) }
        sx::check!(h == whole.number(), "stored hashes depend on this definition");
        let p = sx::u64("prefix");
        let mut w = BkdrHasher::with_prefix(p);
        w.write(&d);
        sx::check!(w.number() == h, "a prefix does not change the number");
        sx::check!(w.number_with_prefix() == ((p as u128) << 64 | h as u128), "the prefix is the high half");
        sx::check!(whole.number_with_prefix() == h as u128, "no prefix means a zero high half");
        sx::trace(h);
        if cut > 0 && cut < n { sx::cover("split") }
    }
    fn dedup_keeps_last() {
        let n = sx::choose(0, sx::param("n", 5) as usize, "n");
        let mut v: Vec<Elem> = vec![];
        let mut keys = vec![];
        for i in 0..n {
            let k = sx::usize(0, 3, "k") as u8;
            keys.push(k);
            v.push(Elem { key: k, tag: i as u32, own: Box::new(i as u32 * 7 + 1) });
        }
        let before = sx::live_heap();
        dedup_front_by_key(&mut v, |e| e.key);
        // reference: an element stays iff the next one has a different key
        let mut want: Vec<(u8, u32)> = vec![];
        for i in 0..n {
            if i + 1 == n || keys[i] != keys[i + 1] { want.push((keys[i], i as u32)) }
        }
        sx::check!(v.len() == want.len(), "one element per run of equal keys stays");
        for (e, w) in v.iter().zip(&want) {
            sx::check!(e.key == w.0, "the kept elements are in order");
            sx::check!(e.tag == w.1, "the last of each run is the one that stays");
            sx::check!(*e.own == w.1 * 7 + 1, "a kept element keeps its contents");
        }
        let _ = before;
        if want.len() < n { sx::cover("removed") }
        if want.len() > 1 { sx::cover("kept-many") }
    }
    fn dedup_relation() {
        let n = sx::choose(0, sx::param("n", 4) as usize, "n");
        let ks: Vec<u8> = (0..n).map(|_| sx::u8("k")).collect();
        let mut v: Vec<(u8, usize)> = ks.iter().copied().zip(0..).collect();
        dedup_front_by(&mut v, |a, b| a.0 / 16 == b.0 / 16);
        let mut want = vec![];
        for i in 0..n {
            if i + 1 == n || ks[i] / 16 != ks[i + 1] / 16 { want.push((ks[i], i)) }
        }
        sx::check!(v == want, "exactly the last element of every run of related elements stays, in order");
        if want.len() < n { sx::cover("removed") }
    }
    fn precision_convert() {
        let (f, t) = (prec("from"), prec("to"));
        let ts = sx::i64("ts");
        let r = timestamp_convert(f, t, ts);
        let (nf, nt) = (per_ns(f), per_ns(t));
        if nf >= nt {
            let mul = nf / nt;
            let exact = ts as i128 * mul;
            match r {
                Some(v) => {
                    sx::check!(v as i128 == exact, "converting to a finer unit must be exact");
                    sx::trace(v as u64);
                    if mul > 1 {
                        sx::cover("finer");
                        sx::check!(timestamp_convert(t, f, v) == Some(ts), "converting to a finer unit and back returns the original time");
                    }
                }
                None => {
                    sx::cover("overflow");
                    sx::check!(exact > i64::MAX as i128 || exact < i64::MIN as i128, "conversion may only fail when the time cannot be represented");
                }
            }
        } else {
            let div = (nt / nf) as i64;
            match r {
                None => sx::fail("converting to a coarser unit cannot fail"),
                Some(v) => {
                    sx::cover("coarser");
                    let back = v as i128 * div as i128;
                    let err = ts as i128 - back;
                    sx::check!(err > -(div as i128) && err < div as i128, "converting to a coarser unit loses less than one unit");
                    sx::check!(v == 0 || (v > 0) == (ts > 0), "conversion keeps the sign");
                }
            }
        }
    }
    fn precision_monotone() {
        let (f, t) = (prec("from"), prec("to"));
        // quotient/remainder form keeps the solver's work linear
        let a = sx::i64("a");
        let b = sx::i64("b");
        sx::assume(a <= b);
        if let (Some(x), Some(y)) = (timestamp_convert(f, t, a), timestamp_convert(f, t, b)) {
            sx::cover("ordered");
            sx::check!(x <= y, "conversion must keep the order of times");
        }
    }
    fn precision_names() {
        let p = prec("p");
        sx::check!(Precision::new(&p.to_string()) == Some(p), "a time unit's printed name must parse back");
        sx::check!(Precision::from(p as u8) == p, "a time unit's code must decode to it");
        let c = sx::u8("code");
        let d = Precision::from(c);
        sx::check!(if c <= 2 { d as u8 == c } else { d == Precision::NS }, "unknown codes mean nanoseconds");
        sx::cover("named");
    }
    fn duration_saturates() {
        let (s, n) = (sx::u64("secs"), sx::range(0, 999_999_999, "nanos") as u32);
        let d = CnosDuration::new_with_duration(Duration::new(s, n));
        let ns = s as u128 * 1_000_000_000 + n as u128;
        let p = prec("unit");
        let (v, want) = match p {
            Precision::NS => (d.to_nanoseconds(), ns),
            Precision::US => (d.to_microseconds(), s as u128 * 1_000_000 + (n / 1000) as u128),
            Precision::MS => (d.to_millisecond(), s as u128 * 1_000 + (n / 1_000_000) as u128),
        };
        sx::check!(v == d.to_precision(p), "all conversions agree");
        sx::check!(v as i128 == want.min(i64::MAX as u128) as i128, "a duration converts exactly, capped at the largest value");
        sx::check!(v >= 0, "a duration is never negative");
        if want > i64::MAX as u128 { sx::cover("capped") } else { sx::cover("exact") }
        sx::check!(CnosDuration::new_inf().to_precision(p) == i64::MAX, "an unlimited duration is the largest value");
    }
    fn duration_days() {
        let day = sx::u64("day");
        let d = CnosDuration::new_with_day(day);
        let inf = d == CnosDuration::new_inf();
        match day.checked_mul(86400) {
            None => { sx::cover("too-large"); sx::check!(inf, "a day count too large for a duration means unlimited") }
            Some(s) => { sx::cover("days"); sx::check!(!inf && d.duration == Duration::from_secs(s), "a day count is exact") }
        }
        sx::check!(d.to_nanoseconds() as i128 == (day as u128 * 86_400_000_000_000).min(i64::MAX as u128) as i128, "days convert exactly, capped");
    }
    fn duration_parse_digits() {
        // a bare number is a number of days
        let n = sx::choose(1, sx::param("len", 4) as usize, "len");
        let s = sx::string_from(b"0123456789", n, "digit");
        let mut v = 0u64;
        for c in s.bytes() { v = v * 10 + (c - b'0') as u64 }
        match CnosDuration::new(&s) {
            Some(d) => sx::check!(d == CnosDuration::new_with_day(v), "a bare number is a number of days"),
            None => sx::fail("a bare number must parse"),
        }
        sx::cover("parsed");
    }
    fn duration_print_parse() {
        // one coarse unit plus an arbitrary small remainder, and possibly a sub-second part
        let unit = [1u64, 60, 3600, 86400][sx::choose(0, 3, "unit")];
        let s = unit * sx::range(0, sx::param("count", 30), "count") + sx::range(0, sx::param("rest", 9), "rest");
        let kind = sx::choose(0, 3, "sub");
        let n = match kind {
            0 => 0,
            1 => sx::range(0, sx::param("sub", 99), "ms") as u32 * 1_000_000,
            2 => sx::range(0, sx::param("sub", 99), "us") as u32 * 1_000,
            _ => sx::range(0, sx::param("sub", 99), "ns") as u32,
        };
        let d = CnosDuration::new_with_duration(Duration::new(s, n));
        let txt = d.to_string();
        match CnosDuration::new(&txt) {
            Some(e) => sx::check!(e == d, "a printed duration must parse back to itself"),
            None => sx::fail("a printed duration must parse"),
        }
        sx::trace(txt.len() as u64);
        if kind > 0 && n > 0 { sx::cover("subsecond") }
        if s >= 86400 { sx::cover("days") }
    }
    fn duration_inf() {
        let d = CnosDuration::new_inf();
        sx::check!(CnosDuration::new(&d.to_string()) == Some(d.clone()), "unlimited parses back");
        let s = sx::string_from(b"iInNfFx", 3, "c");
        let up = s.to_uppercase();
        let r = CnosDuration::new(&s);
        sx::check!((r == Some(d)) == (up == "INF"), "exactly the word INF, in any case, is unlimited");
        sx::cover("inf");
    }
}
