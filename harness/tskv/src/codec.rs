//! Column codecs of the data files: what is stored reads back, at the rows that hold a value.
use arrow_array::{Array, ArrayRef, BooleanArray, Float64Array, Int64Array, StringArray, UInt64Array};
use arrow_buffer::NullBuffer;
use models::codec::Encoding;
use tskv::tsm::codec::*;

/// which rows hold a value: any pattern over up to n rows
fn rows(n: usize) -> Vec<bool> {
    let k = sx::choose(0, n, "rows");
    (0..k).map(|_| sx::choose(0, 1, "valid") == 1).collect()
}
/// any sequence of values, written as its steps (the codecs store steps)
fn steps(valid: &[bool]) -> Vec<i64> {
    let mut v = vec![];
    let mut at = 0i64;
    for _ in valid.iter().filter(|v| **v) {
        at = at.wrapping_add(sx::i64("step"));
        v.push(at);
    }
    v
}
fn nulls(v: &[bool]) -> NullBuffer {
    NullBuffer::from(v.to_vec())
}
fn shape(a: &ArrayRef, valid: &[bool]) {
    sx::check!(a.len() == valid.len(), "as many rows as were stored");
    for i in 0..valid.len() {
        sx::check!(a.is_valid(i) == valid[i], "a row holds a value exactly when one was stored");
    }
}
macro_rules! values {
    ($a:expr, $valid:expr, $vals:expr, $t:ty, $eq:expr) => {{
        let a = $a;
        shape(&a, $valid);
        let a = a.as_any().downcast_ref::<$t>().unwrap();
        let mut k = 0;
        for i in 0..$valid.len() {
            if $valid[i] {
                sx::check!($eq(a.value(i), &$vals[k]), "a row reads back the value stored in it");
                k += 1;
            }
        }
        if k > 1 && k < $valid.len() { sx::cover("gaps"); }
    }};
}
fn enc(list: &[Encoding]) -> Encoding {
    list[sx::choose(0, list.len() - 1, "encoding")]
}
const INTS: [Encoding; 4] = [Encoding::Null, Encoding::Delta, Encoding::DeltaTs, Encoding::Quantile];
fn ints(vals: &[i64], valid: &[bool], ts: bool, e: Encoding) {
    let mut d = vec![];
    let r = if ts { get_ts_codec(e).encode(vals, &mut d) } else { get_i64_codec(e).encode(vals, &mut d) };
    sx::check!(r.is_ok(), "every value can be stored");
    let a = if ts { get_ts_codec(e).decode_to_array(&d, &nulls(valid)) } else { get_i64_codec(e).decode_to_array(&d, &nulls(valid)) };
    match a {
        Ok(a) => values!(a, valid, vals, Int64Array, |x: i64, y: &i64| x == *y),
        Err(_) => sx::check!(false, "what was stored can be read"),
    }
    if !vals.is_empty() { sx::check!(get_encoding(&d) == e, "stored data names its encoding"); }
}
fn uints(vals: &[u64], valid: &[bool], e: Encoding) {
    let mut d = vec![];
    sx::check!(get_u64_codec(e).encode(vals, &mut d).is_ok(), "every value can be stored");
    match get_u64_codec(e).decode_to_array(&d, &nulls(valid)) {
        Ok(a) => values!(a, valid, vals, UInt64Array, |x: u64, y: &u64| x == *y),
        Err(_) => sx::check!(false, "what was stored can be read"),
    }
}
/// Every sequence of n floats, described by the differences (xor) between neighbours and to the end marker;
/// a difference is zero or has its first and last set bit somewhere.
fn gorilla(n: usize, full: bool) {
    let mut at = 0x7ff8_0000_0000_00ffu64;
    let mut vals = vec![];
    for _ in 0..n {
        at ^= difference(full);
        vals.push(f64::from_bits(at));
    }
    vals.reverse();
    floats(&vals, &vec![true; n], Encoding::Gorilla);
}
/// any 64-bit difference with the first and last set bit at chosen places
fn difference(full: bool) -> u64 {
    if sx::choose(0, 1, "differs") == 0 { return 0 }
    let (hi, lo);
    if full {
        hi = sx::choose(0, 63, "hi");
        lo = sx::choose(0, hi, "lo");
    } else {
        const B: [usize; 10] = [63, 62, 52, 51, 33, 32, 31, 30, 8, 0];
        let i = sx::choose(0, B.len() - 1, "hi");
        hi = B[i];
        lo = B[sx::choose(i, B.len() - 1, "lo")];
    }
    let mid = sx::u64("mid");
    if hi == lo { return 1 << lo }
    if hi == lo + 1 { return 3 << lo }
    let n = hi - lo - 1;
    (1 << hi) | ((mid & ((1 << n) - 1)) << (lo + 1)) | (1 << lo)
}
sx::harnesses! {
    fn codec_int() {
        let e = enc(&[Encoding::Null, Encoding::Delta, Encoding::Quantile]);
        let valid = rows(sx::param("rows", 4) as usize);
        let vals = steps(&valid);
        ints(&vals, &valid, sx::choose(0, 1, "ts") == 1, e);
    }
    fn codec_ts() {
        let valid = rows(sx::param("rows", 3) as usize);
        let vals = steps(&valid);
        ints(&vals, &valid, true, Encoding::DeltaTs);
    }
    fn codec_uint() {
        let e = enc(&[Encoding::Null, Encoding::Delta, Encoding::Quantile]);
        let valid = rows(sx::param("rows", 4) as usize);
        let vals: Vec<u64> = steps(&valid).into_iter().map(|v| v as u64).collect();
        uints(&vals, &valid, e);
    }
    fn codec_bool() {
        let e = enc(&[Encoding::Null, Encoding::BitPack]);
        let valid = rows(sx::param("rows", 5) as usize);
        let vals: Vec<bool> = valid.iter().filter(|v| **v).map(|_| sx::bool("v")).collect();
        let mut d = vec![];
        sx::check!(get_bool_codec(e).encode(&vals, &mut d).is_ok(), "every value can be stored");
        match get_bool_codec(e).decode_to_array(&d, &nulls(&valid)) {
            Ok(a) => values!(a, &valid, vals, BooleanArray, |x: bool, y: &bool| x == *y),
            Err(_) => sx::check!(false, "what was stored can be read"),
        }
    }
    fn codec_bool_long() {
        // around the byte boundaries, no gaps
        let e = enc(&[Encoding::Null, Encoding::BitPack]);
        let n = [8, 9, 63, 64, 65, 127, 128, 129, 200][sx::choose(0, 8, "n")];
        let vals: Vec<bool> = (0..n).map(|i| if i < 3 || i + 3 >= n { sx::bool("v") } else { i * i % 7 < 3 }).collect();
        let valid = vec![true; n];
        let mut d = vec![];
        sx::check!(get_bool_codec(e).encode(&vals, &mut d).is_ok(), "every value can be stored");
        match get_bool_codec(e).decode_to_array(&d, &nulls(&valid)) {
            Ok(a) => values!(a, &valid, vals, BooleanArray, |x: bool, y: &bool| x == *y),
            Err(_) => sx::check!(false, "what was stored can be read"),
        }
    }
    fn codec_float() {
        let e = enc(&[Encoding::Null, Encoding::Quantile]);
        let valid = rows(sx::param("rows", 4) as usize);
        let vals: Vec<f64> = valid.iter().filter(|v| **v).map(|_| f64::from_bits(sx::u64("v"))).collect();
        floats(&vals, &valid, e);
    }
    fn codec_gorilla() { gorilla(1, true); }
    fn codec_gorilla_pairs() { gorilla(sx::param("rows", 2) as usize, false); }
    fn codec_gorilla_gaps() {
        let valid = rows(sx::param("rows", 4) as usize);
        let mut at = 0x7ff8_0000_0000_00ffu64;
        let mut vals = vec![];
        for _ in valid.iter().filter(|v| **v) { at ^= (sx::u64("m") & 0xfff0_0000) | 0x1000_0000_0008_0000; vals.push(f64::from_bits(at)); }
        vals.reverse();
        floats(&vals, &valid, Encoding::Gorilla);
    }
    fn codec_string() {
        let e = enc(&[Encoding::Null, Encoding::Gzip, Encoding::Bzip, Encoding::Snappy, Encoding::Zstd, Encoding::Zlib]);
        let valid = rows(sx::param("rows", 3) as usize);
        let vals: Vec<Vec<u8>> = valid.iter().filter(|v| **v).map(|_| {
            let n = sx::choose(0, sx::param("len", 2) as usize, "len");
            let b = sx::byte_vec(n, "s");
            for c in &b { sx::assume(*c < 0x80); }
            b
        }).collect();
        let refs: Vec<&[u8]> = vals.iter().map(|v| v.as_slice()).collect();
        let mut d = vec![];
        sx::check!(get_str_codec(e).encode(&refs, &mut d).is_ok(), "every value can be stored");
        match get_str_codec(e).decode_to_array(&d, &nulls(&valid)) {
            Ok(a) => values!(a, &valid, vals, StringArray, |x: &str, y: &Vec<u8>| x.as_bytes() == y.as_slice()),
            Err(_) => sx::check!(false, "what was stored can be read"),
        }
        let mut out = vec![];
        sx::check!(get_str_codec(e).decode(&d, &mut out).is_ok(), "what was stored can be read");
        sx::check!(out.len() == vals.len(), "as many strings as were stored");
        for i in 0..vals.len() { sx::check!(out[i].as_slice() == vals[i].as_slice(), "a string reads back as stored"); }
    }
    fn codec_packed() {
        // steps that fill one packed word of each width, and one step more
        let w = sx::choose(0, 13, "width");
        let (n, bits) = [(60, 1), (30, 2), (20, 3), (15, 4), (12, 5), (10, 6), (8, 7), (7, 8), (6, 10), (5, 12), (4, 15), (3, 20), (2, 30), (1, 60)][w];
        let extra = sx::choose(0, 1, "extra");
        let mut at = sx::i64("first");
        let mut vals = vec![at];
        for i in 0..n + extra {
            // one step of the full width, at the start or at the end of the word, keeps the width
            let d = if i == 0 { 1 | 1 << (bits - 1) } else { sx::u64("d") & ((1 << bits) - 1) };
            at = at.wrapping_add(d as i64);
            vals.push(at);
        }
        let valid = vec![true; vals.len()];
        ints(&vals, &valid, true, Encoding::DeltaTs);
    }
    fn codec_runs() {
        // long runs of equal steps, with one other step near the ends of the packed runs
        let n = [119, 120, 121, 240, 241, 361][sx::choose(0, sx::param("n", 2) as usize, "n")];
        let at = [0, 1, 119, 120, 121, 239, 240][sx::choose(0, 6, "at")];
        let odd = sx::u64("odd") & ((1 << 40) - 1) | 1;
        let mut v = sx::i64("first");
        let mut vals = vec![v];
        for i in 0..n { v = v.wrapping_add(if i == at { odd as i64 } else { 1 }); vals.push(v); }
        let valid = vec![true; vals.len()];
        ints(&vals, &valid, true, Encoding::DeltaTs);
    }
}
fn floats(vals: &[f64], valid: &[bool], e: Encoding) {
    let mut d = vec![];
    let r = get_f64_codec(e).encode(vals, &mut d);
    if r.is_err() {
        let mut marker = false;
        for v in vals { marker |= v.to_bits() == 0x7ff8_0000_0000_00ff; }
        sx::check!(marker & (e == Encoding::Gorilla), "only the end marker itself cannot be stored");
        sx::cover("refused");
        return;
    }
    match get_f64_codec(e).decode_to_array(&d, &nulls(valid)) {
        Ok(a) => values!(a, valid, vals, Float64Array, |x: f64, y: &f64| x.to_bits() == y.to_bits()),
        Err(_) => sx::check!(false, "what was stored can be read"),
    }
}
