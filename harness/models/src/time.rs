//! TimeRange / TimeRanges as sets of timestamps.
use models::predicate::domain::{TimeRange, TimeRanges};
fn range(n: &str) -> TimeRange {
    let a = sx::i64(n);
    let b = sx::i64(n);
    sx::assume(a <= b);
    TimeRange::new(a, b)
}
fn inn(r: &TimeRange, t: i64) -> bool {
    (r.min_ts <= t) & (t <= r.max_ts)
}
fn any(rs: &[TimeRange], t: i64) -> bool {
    rs.iter().fold(false, |a, r| a | inn(r, t))
}
/// The stored form: ascending, separated by at least one missing timestamp, with matching outer bounds.
fn well_formed(s: &TimeRanges) {
    let v: Vec<TimeRange> = s.time_ranges().collect();
    sx::check!(v.len() == s.len() && s.is_empty() == v.is_empty(), "len and iteration agree");
    let mut ok = true;
    for (i, r) in v.iter().enumerate() {
        ok &= r.min_ts <= r.max_ts;
        if i > 0 {
            ok &= v[i - 1].max_ts < r.min_ts;
            ok &= v[i - 1].max_ts.wrapping_add(1) != r.min_ts;
        }
    }
    sx::check!(ok, "stored ranges are non-empty, ascending, disjoint and not adjacent");
    if let (Some(f), Some(l)) = (v.first(), v.last()) {
        sx::check!((s.min_ts() == f.min_ts) & (s.max_ts() == l.max_ts), "min_ts and max_ts are the outermost bounds");
        sx::check!(s.max_time_range() == TimeRange::new(f.min_ts, l.max_ts), "max_time_range spans the ranges");
    }
}
/// An arbitrary set built through the public constructors, with the ranges that went in.
fn build(n: usize) -> (TimeRanges, Vec<TimeRange>) {
    let k = sx::choose(0, n, "ranges");
    let v: Vec<TimeRange> = (0..k).map(|_| range("r")).collect();
    let how = sx::choose(0, 1, "how");
    let s = if how == 0 {
        TimeRanges::new(v.clone())
    } else {
        let mut s = TimeRanges::empty();
        for r in &v {
            s.push(*r);
        }
        s
    };
    (s, v)
}
sx::harnesses! {
    fn time_range_algebra() {
        let a = range("a");
        let b = range("b");
        let t = sx::i64("t");
        sx::check!(a.contains(t) == inn(&a, t), "contains is membership");
        let (ia, ib) = (inn(&a, t), inn(&b, t));
        match a.intersect(&b) {
            Some(c) => { sx::cover("overlap"); sx::check!(!c.is_none() & (inn(&c, t) == (ia & ib)), "intersect is the common part"); sx::check!(a.overlaps(&b), "overlaps with a common part"); }
            None => { sx::cover("apart"); sx::check!(!(ia & ib), "no intersection only without a common timestamp"); sx::check!(!a.overlaps(&b), "overlaps without a common part"); }
        }
        if a.includes(&b) { sx::check!(!ib | ia, "includes: every timestamp of the other is inside"); }
        else { sx::check!((b.min_ts < a.min_ts) | (b.max_ts > a.max_ts), "includes is false only if some timestamp is outside"); }
        let (l, r) = a.exclude(&b);
        let ex = l.map_or(false, |x| inn(&x, t)) | r.map_or(false, |x| inn(&x, t));
        sx::check!(ex == (ia & !ib), "exclude is the set difference");
        sx::check!(!l.map_or(false, |x| x.is_none()) & !r.map_or(false, |x| x.is_none()), "exclude returns no empty range");
        let mut m = a;
        m.merge(&b);
        sx::check!((!(ia | ib) | inn(&m, t)) & (m.min_ts == a.min_ts.min(b.min_ts)) & (m.max_ts == a.max_ts.max(b.max_ts)), "merge is the hull");
        let span = a.max_ts.wrapping_sub(a.min_ts) as u64;
        if span != u64::MAX { sx::check!(a.total_time() == span + 1, "total_time counts the timestamps"); }
        sx::check!(a.is_boundless() == ((a.min_ts == i64::MIN) & (a.max_ts == i64::MAX)), "boundless is every timestamp");
    }
    fn time_range_from_bounds() {
        use std::ops::Bound;
        let mk = |n: &str| { let v = sx::i64(n); match sx::choose(0, 2, "kind") { 0 => Bound::Included(v), 1 => Bound::Excluded(v), _ => Bound::Unbounded } };
        let lo = mk("lo");
        let hi = mk("hi");
        let t = sx::i64("t");
        let r: TimeRange = (lo, hi).into();
        let want = (match lo { Bound::Included(v) => t >= v, Bound::Excluded(v) => t > v, Bound::Unbounded => true })
            & (match hi { Bound::Included(v) => t <= v, Bound::Excluded(v) => t < v, Bound::Unbounded => true });
        if want { sx::cover("inside"); }
        sx::check!(r.contains(t) == want, "a range made of bounds holds exactly the timestamps within them");
    }
    fn time_ranges_build() {
        let (s, v) = build(sx::param("n", 3) as usize);
        let t = sx::i64("t");
        well_formed(&s);
        if s.len() < v.len() { sx::cover("merged"); }
        if s.len() > 1 { sx::cover("separate"); }
        sx::check!(s.contains(t) == any(&v, t), "a set holds exactly the timestamps put in");
        sx::check!(s.time_ranges().fold(false, |a, r| a | inn(&r, t)) == any(&v, t), "iteration yields exactly the timestamps put in");
        sx::check!(s.is_boundless() == ((s.len() == 1) & (s.min_ts() == i64::MIN) & (s.max_ts() == i64::MAX)), "boundless means every timestamp");
    }
    fn time_ranges_query() {
        let (s, v) = build(sx::param("n", 2) as usize);
        let q = range("q");
        let t = sx::i64("t");
        let iq = inn(&q, t);
        let is = any(&v, t);
        if s.overlaps(&q) {
            sx::cover("overlap");
            let mut some = false;
            for r in &v { some |= (r.min_ts <= q.max_ts) & (q.min_ts <= r.max_ts); }
            sx::check!(some, "overlaps only with a common timestamp");
        } else { sx::check!(!(iq & is), "not overlapping means no common timestamp"); }
        if s.includes(&q) { sx::cover("included"); sx::check!(!iq | is, "includes only if every timestamp is in the set"); }
        else {
            // some timestamp of q is missing: q is not inside one of the merged ranges
            let inside = s.time_ranges().fold(false, |a, r| a | ((r.min_ts <= q.min_ts) & (q.max_ts <= r.max_ts)));
            sx::check!(!inside, "includes is false only if a timestamp is missing");
        }
        match s.intersect(&q) {
            Some(x) => { well_formed(&x); sx::check!(!x.is_empty() & (x.contains(t) == (is & iq)), "intersect is the common part"); }
            None => { sx::check!(!(is & iq), "no intersection only without a common timestamp"); }
        }
        let d = s.exclude(&q);
        well_formed(&d);
        sx::check!(d.contains(t) == (is & !iq), "exclude is the set difference");
    }
    fn time_ranges_grow() {
        // a set that shrank can still grow again
        let (s, v) = build(sx::param("n", 2) as usize);
        let q = range("q");
        let p = range("p");
        let t = sx::i64("t");
        let mut d = s.exclude(&q);
        if sx::choose(0, 1, "how") == 0 { d.push(p); } else { d.extend_from_slice(&[p]); }
        if d.len() > 1 { sx::cover("holes"); }
        well_formed(&d);
        sx::check!(d.contains(t) == ((any(&v, t) & !inn(&q, t)) | inn(&p, t)), "push after exclude adds exactly the range");
    }
    fn time_range_exclude_many() {
        let a = range("a");
        let (s, v) = build(sx::param("n", 2) as usize);
        let t = sx::i64("t");
        let want = inn(&a, t) & !any(&v, t);
        match a.exclude_time_ranges(&s) {
            Some(r) => { sx::cover("remains"); well_formed(&r); sx::check!(!r.is_empty() & (r.contains(t) == want), "what remains is the set difference"); }
            None => { sx::cover("nothing"); sx::check!(!want, "nothing remains only if everything is excluded"); }
        }
        let refs: Vec<&TimeRange> = v.iter().collect();
        let w = TimeRanges::new(vec![a]).exclude_time_ranges(&refs);
        sx::check!(w.contains(t) == want, "excluding one by one is the set difference");
    }
}
