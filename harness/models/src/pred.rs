//! Predicates, and the value domains, time ranges and delete filters made from them.
use datafusion::arrow::datatypes::DataType;
use datafusion::common::Column;
use datafusion::logical_expr::{Between, BinaryExpr, Cast, Expr, InList, Operator};
use datafusion::scalar::ScalarValue;
use models::predicate::domain::{ColumnDomains, Domain, Range};
use models::predicate::transformation::{DeleteSelectionExpressionToDomainsVisitor, RowExpressionToDomainsVisitor};
use models::predicate::utils::{filter_to_time_ranges, filter_to_time_ranges_with_precision};
use utils::precision::Precision;
use datafusion::arrow::datatypes::TimeUnit;
use std::ops::RangeBounds;

const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];
fn op(n: &str) -> Operator {
    OPS[sx::choose(0, 5, n)]
}
fn holds(o: Operator, a: i64, b: i64) -> bool {
    match o {
        Operator::Eq => a == b,
        Operator::NotEq => a != b,
        Operator::Lt => a < b,
        Operator::LtEq => a <= b,
        Operator::Gt => a > b,
        _ => a >= b,
    }
}
fn has(d: &Domain, v: &ScalarValue) -> bool {
    match d {
        Domain::Range(s) => {
            for (_, r) in s.low_indexed_ranges() {
                if r.contains(v) {
                    return true;
                }
            }
            false
        }
        Domain::Equtable(s) => {
            let mut f = false;
            for e in s.entries() {
                f |= e.value() == v;
            }
            f == s.is_white_list()
        }
        Domain::None => false,
        Domain::All => true,
    }
}
/// ranges of one comparison, and the same as a test
struct Cmp(Operator, i64);
impl Cmp {
    fn any(n: &str) -> Cmp {
        Cmp(op(n), sx::i64(n))
    }
    fn ranges(&self) -> Vec<Range> {
        let (t, v) = (&DataType::Int64, &ScalarValue::Int64(Some(self.1)));
        match self.0 {
            Operator::Eq => vec![Range::eq(t, v)],
            Operator::NotEq => Range::ne(t, v),
            Operator::Lt => vec![Range::lt(t, v)],
            Operator::LtEq => vec![Range::le(t, v)],
            Operator::Gt => vec![Range::gt(t, v)],
            _ => vec![Range::ge(t, v)],
        }
    }
    fn holds(&self, x: i64) -> bool {
        holds(self.0, x, self.1)
    }
}
fn domain(c: &[Cmp]) -> Domain {
    let mut v = vec![];
    for c in c {
        v.extend(c.ranges());
    }
    Domain::of_ranges(&v).ok().unwrap()
}
/// what one column's domain holds
fn col_has(d: &ColumnDomains<u8>, x: i64) -> bool {
    match d.domains() {
        None => false,
        Some(m) => m.get(&0).map_or(true, |d| has(d, &ScalarValue::Int64(Some(x)))),
    }
}
fn column(n: usize) -> Expr {
    Expr::Column(Column::from_name(["a", "b", "c"][n]))
}
fn int(v: i64) -> Expr {
    Expr::Literal(ScalarValue::Int64(Some(v)))
}
fn bin(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr { left: Box::new(l), op, right: Box::new(r) })
}
/// A comparison of a column with a constant, either way round, and its value on the row.
fn leaf(row: &[i64]) -> (Expr, bool) {
    let o = op("op");
    let c = sx::choose(0, row.len() - 1, "column");
    let k = sx::i64("k");
    if sx::choose(0, 1, "side") == 0 {
        (bin(column(c), o, int(k)), holds(o, row[c], k))
    } else {
        (bin(int(k), o, column(c)), holds(o, k, row[c]))
    }
}
/// Expressions the translation does not understand in detail.
fn opaque(row: &[i64]) -> (Expr, bool) {
    let kinds = sx::param("opaque", 6) as usize;
    match sx::choose(0, kinds, "opaque") {
        0 => { let (e, v) = leaf(row); (Expr::Not(Box::new(e)), !v) }
        1 => { let (l, h) = (sx::i64("k"), sx::i64("k")); (Expr::Between(Between { expr: Box::new(column(0)), negated: false, low: Box::new(int(l)), high: Box::new(int(h)) }), (l <= row[0]) & (row[0] <= h)) }
        2 => { let k = sx::i64("k"); (Expr::InList(InList { expr: Box::new(column(0)), list: vec![int(k)], negated: true }), row[0] != k) }
        3 => { let b = sx::bool("lit"); (Expr::Literal(ScalarValue::Boolean(Some(b))), b) }
        4 => { let (e, v) = leaf(row); let (f, w) = leaf(row); (bin(e, Operator::Eq, f), v == w) }
        5 => { let (e, v) = leaf(row); (Expr::IsTrue(Box::new(e)), v) }
        _ => { let k = sx::i64("k"); (bin(bin(column(0), Operator::Plus, int(1)), Operator::Gt, int(k)), row[0].wrapping_add(1) > k) }
    }
}
fn join(a: (Expr, bool), b: (Expr, bool)) -> (Expr, bool) {
    if sx::choose(0, 1, "join") == 0 { (bin(a.0, Operator::And, b.0), a.1 & b.1) } else { (bin(a.0, Operator::Or, b.0), a.1 | b.1) }
}
fn sound(e: &Expr, v: bool, row: &[i64]) {
    let d = match RowExpressionToDomainsVisitor::expr_to_column_domains(e) {
        Ok(d) => d,
        Err(_) => return,
    };
    let mut inside = true;
    match d.domains() {
        None => inside = false,
        Some(m) => {
            for (c, x) in row.iter().enumerate() {
                if let Some(d) = m.get(&Column::from_name(["a", "b", "c"][c])) {
                    sx::cover("restricted");
                    inside &= has(d, &ScalarValue::Int64(Some(*x)));
                }
            }
        }
    }
    if inside { sx::cover("kept") } else { sx::cover("pruned") }
    sx::check!(!v | inside, "a row that satisfies the predicate is inside the domains made from it");
}
const TAGS: [&str; 2] = ["host", "rack"];
fn ts(v: i64) -> Expr {
    Expr::Literal(ScalarValue::TimestampNanosecond(Some(v), None))
}
fn utf(c: u8) -> ScalarValue {
    ScalarValue::Utf8(Some(unsafe { String::from_utf8_unchecked(vec![c]) }))
}
/// a comparison on time or on a tag
fn del_leaf(t: i64, tags: &[u8]) -> (Expr, bool) {
    let o = op("op");
    let c = sx::choose(0, tags.len(), "column");
    let side = sx::choose(0, 1, "side");
    let (col, lit, v) = if c == tags.len() {
        let k = sx::i64("k");
        (Expr::Column(Column::from_name("time")), ts(k), if side == 0 { holds(o, t, k) } else { holds(o, k, t) })
    } else {
        let k = sx::u8("s");
        sx::assume(k < 0x80);
        (Expr::Column(Column::from_name(TAGS[c])), Expr::Literal(utf(k)), if side == 0 { holds(o, tags[c] as i64, k as i64) } else { holds(o, k as i64, tags[c] as i64) })
    };
    (if side == 0 { bin(col, o, lit) } else { bin(lit, o, col) }, v)
}
/// things a DELETE may be given besides plain comparisons
fn del_other() -> (Expr, bool) {
    match sx::choose(0, 3, "other") {
        0 => { let b = sx::bool("lit"); (Expr::Literal(ScalarValue::Boolean(Some(b))), b) }
        1 => (bin(Expr::Column(Column::from_name("host")), op("op"), Expr::Literal(ScalarValue::Utf8(None))), false),
        2 => (bin(Expr::Column(Column::from_name("time")), op("op"), Expr::Literal(ScalarValue::Null)), false),
        _ => (bin(Expr::Column(Column::from_name("time")), op("op"), Expr::Literal(ScalarValue::TimestampNanosecond(None, None))), false),
    }
}
fn exact(e: &Expr, v: bool, t: i64, tags: &[u8]) {
    match DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(e) {
        Err(_) => sx::cover("refused"),
        Ok((tag, time)) => {
            sx::cover("accepted");
            let mut hit = false;
            for r in filter_to_time_ranges(&time) {
                hit |= r.contains(t);
            }
            match tag.domains() {
                None => hit = false,
                Some(m) => {
                    for (i, b) in tags.iter().enumerate() {
                        if let Some(d) = m.get(TAGS[i]) {
                            hit &= has(d, &utf(*b));
                        }
                    }
                    sx::check!(m.keys().all(|k| TAGS.contains(&k.as_str())), "a delete filter names only the tags of the condition");
                }
            }
            if hit { sx::cover("deleted") }
            sx::check!(hit == v, "a DELETE removes exactly the rows its condition selects");
        }
    }
}
sx::harnesses! {
    fn domain_of_ranges() {
        let n = sx::choose(1, sx::param("n", 3) as usize, "n");
        let c: Vec<Cmp> = (0..n).map(|_| Cmp::any("c")).collect();
        let d = domain(&c);
        let x = sx::i64("x");
        let want = c.iter().fold(false, |a, c| a | c.holds(x));
        if let Domain::Range(s) = &d { if s.low_indexed_ranges().into_iter().count() < n { sx::cover("merged"); } }
        sx::check!(has(&d, &ScalarValue::Int64(Some(x))) == want, "a union of ranges holds exactly their values");
    }
    fn domain_union() {
        let (a, b) = (Cmp::any("a"), Cmp::any("b"));
        let mut m: ColumnDomains<u8> = ColumnDomains::of(0, &domain(&[Cmp(a.0, a.1)]));
        let other: ColumnDomains<u8> = ColumnDomains::of(0, &domain(&[Cmp(b.0, b.1)]));
        if sx::choose(0, 1, "how") == 0 { m.column_wise_union(&other); } else { m.insert_or_union(0, other.domains().unwrap().get(&0).unwrap()); }
        let x = sx::i64("x");
        sx::check!(col_has(&m, x) == (a.holds(x) | b.holds(x)), "the union of two domains of a column");
        if a.holds(x) { sx::cover("in"); }
    }
    fn domain_intersect() {
        // three comparisons: intersecting twice reaches ranges with two finite ends and point sets
        let n = sx::choose(2, sx::param("n", 3) as usize, "n");
        let c: Vec<Cmp> = (0..n).map(|_| Cmp::any("c")).collect();
        let mut m: ColumnDomains<u8> = ColumnDomains::all();
        for c in &c {
            let d = domain(&[Cmp(c.0, c.1)]);
            if sx::choose(0, 1, "how") == 0 { m.intersect(&ColumnDomains::of(0, &d)); } else { m.insert_or_intersect(0, &d); }
        }
        let x = sx::i64("x");
        let want = c.iter().fold(true, |a, c| a & c.holds(x));
        if want { sx::cover("in"); }
        sx::check!(col_has(&m, x) == want, "the intersection of domains of a column");
    }
    fn domain_values() {
        // value sets (types without an order): white and black lists
        let set = |n: &str| {
            let k = sx::choose(0, 2, n);
            let w = sx::choose(0, 1, n) == 1;
            let v: Vec<i64> = (0..k).map(|_| sx::choose(0, 2, n) as i64).collect();
            let s: Vec<ScalarValue> = v.iter().map(|v| ScalarValue::Int64(Some(*v))).collect();
            (Domain::of_values(&DataType::Int64, w, &s.iter().collect::<Vec<_>>()), w, v)
        };
        let (da, wa, va) = set("a");
        let (db, wb, vb) = set("b");
        let x = sx::choose(0, 3, "x") as i64;
        let (ia, ib) = (va.contains(&x) == wa, vb.contains(&x) == wb);
        let mut i: ColumnDomains<u8> = ColumnDomains::of(0, &da);
        i.intersect(&ColumnDomains::of(0, &db));
        sx::check!(col_has(&i, x) == (ia & ib), "the intersection of two value sets");
        let mut u: ColumnDomains<u8> = ColumnDomains::of(0, &da);
        u.column_wise_union(&ColumnDomains::of(0, &db));
        sx::check!(col_has(&u, x) == (ia | ib), "the union of two value sets");
        sx::cover("sets");
    }
    fn column_domains_combine() {
        // whole-predicate domains over two columns
        let (x, y) = (sx::i64("x"), sx::i64("y"));
        let mk = |n: &str| -> (ColumnDomains<u8>, bool) {
            match sx::choose(0, 3, n) {
                0 => (ColumnDomains::all(), true),
                1 => (ColumnDomains::none(), false),
                2 => { let c = Cmp::any(n); let col = sx::choose(0, 1, n); (ColumnDomains::of(col as u8, &domain(&[Cmp(c.0, c.1)])), c.holds(if col == 0 { x } else { y })) }
                _ => { let (c, d) = (Cmp(Operator::GtEq, sx::i64(n)), Cmp(Operator::Lt, sx::i64(n))); let mut m = ColumnDomains::of(0, &domain(&[Cmp(c.0, c.1)])); m.insert_or_intersect(1, &domain(&[Cmp(d.0, d.1)])); (m, c.holds(x) & d.holds(y)) }
            }
        };
        let inn = |d: &ColumnDomains<u8>| match d.domains() { None => false, Some(m) => m.get(&0).map_or(true, |d| has(d, &ScalarValue::Int64(Some(x)))) & m.get(&1).map_or(true, |d| has(d, &ScalarValue::Int64(Some(y)))) };
        let (a, ia) = mk("a");
        let (b, ib) = mk("b");
        sx::check!(a.is_none() == a.domains().is_none(), "none is no domain map");
        let mut i = a.clone();
        i.intersect(&b);
        sx::check!(inn(&i) == (ia & ib), "intersecting two predicates' domains keeps exactly the common rows");
        let mut u = a.clone();
        u.column_wise_union(&b);
        sx::check!(!(ia | ib) | inn(&u), "the column-wise union keeps every row of either side");
        let t = a.translate_column(|c| if *c == 1 { None } else { Some(*c) });
        sx::check!(!ia | inn(&t), "dropping columns keeps every row");
        sx::cover("combined");
    }
    fn predicate_sound() {
        let row = [sx::i64("a"), sx::i64("b")];
        let n = sx::choose(1, sx::param("leaves", 2) as usize, "leaves");
        let mut e = leaf(&row);
        for _ in 1..n {
            let l = leaf(&row);
            e = if sx::choose(0, 1, "order") == 0 { join(e, l) } else { join(l, e) };
        }
        sound(&e.0, e.1, &row);
    }
    fn predicate_sound_opaque() {
        // shapes with parts the translation does not understand, anywhere in the tree
        let row = [sx::i64("a"), sx::i64("b")];
        let o = opaque(&row);
        let e = match sx::choose(0, 3, "shape") {
            0 => o,
            1 => { let l = leaf(&row); if sx::choose(0, 1, "order") == 0 { join(o, l) } else { join(l, o) } }
            2 => { let l = (bin(column(0), Operator::Gt, int(5)), row[0] > 5); let m = (bin(column(0), Operator::Gt, int(9)), row[0] > 9); let i = join(l, o); join(m, i) }
            _ => { let l = (bin(column(0), Operator::Gt, int(5)), row[0] > 5); let m = (bin(column(0), Operator::Gt, int(9)), row[0] > 9); let i = join(o, l); join(i, m) }
        };
        sound(&e.0, e.1, &row);
    }
    fn predicate_sound_bool() {
        // boolean columns: no range domains
        let x = sx::bool("x");
        let mk = || { let o = op("op"); let k = sx::bool("k"); (bin(column(0), o, Expr::Literal(ScalarValue::Boolean(Some(k)))), holds(o, x as i64, k as i64)) };
        let a = mk();
        let e = if sx::choose(0, 1, "two") == 0 { a } else { let b = mk(); join(a, b) };
        if let Ok(d) = RowExpressionToDomainsVisitor::expr_to_column_domains(&e.0) {
            let inside = match d.domains() { None => false, Some(m) => m.get(&Column::from_name("a")).map_or(true, |d| has(d, &ScalarValue::Boolean(Some(x)))) };
            if inside { sx::cover("kept") } else { sx::cover("pruned") }
            sx::check!(!e.1 | inside, "a row that satisfies the predicate is inside the domains made from it");
        }
    }
    fn predicate_time_ranges() {
        // conditions on time alone: the ranges that are scanned cover every matching row, and for a single comparison nothing else
        let t = sx::i64("t");
        let cast = sx::choose(0, 1, "cast") == 1;
        let mk = || {
            let o = op("op");
            let k = sx::i64("k");
            let time = Expr::Column(Column::from_name("time"));
            if cast {
                // a millisecond column compared in nanoseconds
                let (q, r) = (k.div_euclid(1_000_000), k.rem_euclid(1_000_000));
                let v = match o { Operator::Eq => (t == q) & (r == 0), Operator::NotEq => (t != q) | (r != 0), Operator::Lt => (t < q) | ((t == q) & (r != 0)), Operator::LtEq => t <= q, Operator::Gt => t > q, _ => (t > q) | ((t == q) & (r == 0)) };
                let c = Expr::Cast(Cast { expr: Box::new(time), data_type: DataType::Timestamp(TimeUnit::Nanosecond, None) });
                if sx::choose(0, 1, "side") == 0 { (bin(c, o, ts(k)), v) } else {
                    let f = match o { Operator::Lt => Operator::Gt, Operator::LtEq => Operator::GtEq, Operator::Gt => Operator::Lt, Operator::GtEq => Operator::LtEq, o => o };
                    (bin(ts(k), f, c), v)
                }
            } else {
                (bin(time, o, ts(k)), holds(o, t, k))
            }
        };
        let n = sx::choose(1, sx::param("leaves", 2) as usize, "leaves");
        let mut e = mk();
        for _ in 1..n { let l = mk(); e = join(e, l); }
        if let Ok(d) = RowExpressionToDomainsVisitor::expr_to_column_domains(&e.0) {
            let d = d.translate_column(|c| Some(c.name.clone()));
            let mut inside = false;
            for r in filter_to_time_ranges(&d) { inside |= r.contains(t); }
            if inside { sx::cover("scanned") } else { sx::cover("skipped") }
            sx::check!(!e.1 | inside, "the scanned time ranges cover every matching row");
            if n == 1 && !cast { sx::check!(inside == e.1, "one comparison on time scans exactly its range"); }
        }
    }
    fn delete_exact() {
        let t = sx::i64("t");
        let nt = sx::param("tags", 1) as usize;
        let tags: Vec<u8> = (0..nt).map(|_| { let b = sx::u8("tag"); sx::assume(b < 0x80); b }).collect();
        let n = sx::choose(1, sx::param("leaves", 3) as usize, "leaves");
        let mut e = del_leaf(t, &tags);
        for _ in 1..n {
            let l = del_leaf(t, &tags);
            e = if sx::choose(0, 1, "order") == 0 { (bin(e.0, Operator::And, l.0), e.1 & l.1) } else { (bin(l.0, Operator::And, e.0), e.1 & l.1) };
        }
        exact(&e.0, e.1, t, &tags);
    }
    fn delete_nested() {
        // two conjunctions joined: (x AND y) AND (z AND w) with one operator per column, any column order
        let t = sx::i64("t");
        let tags = [sx::u8("tag"), sx::u8("tag")];
        sx::assume((tags[0] < 0x80) & (tags[1] < 0x80));
        let mut leafs = vec![];
        for _ in 0..4 {
            let c = sx::choose(0, 2, "column");
            leafs.push(if c == 2 { let k = sx::i64("k"); (bin(Expr::Column(Column::from_name("time")), Operator::Lt, ts(k)), t < k) }
            else { let k = sx::u8("s"); sx::assume(k < 0x80); (bin(Expr::Column(Column::from_name(TAGS[c])), Operator::NotEq, Expr::Literal(utf(k))), tags[c] != k) });
        }
        let mut it = leafs.into_iter();
        let and = |a: (Expr, bool), b: (Expr, bool)| (bin(a.0, Operator::And, b.0), a.1 & b.1);
        let (a, b, c, d) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let e = match sx::choose(0, 2, "shape") { 0 => and(and(a, b), and(c, d)), 1 => and(a, and(b, and(c, d))), _ => and(and(a, and(b, c)), d) };
        exact(&e.0, e.1, t, &tags);
    }
    fn delete_other() {
        let t = sx::i64("t");
        let b = sx::u8("tag");
        sx::assume(b < 0x80);
        let o = del_other();
        let e = match sx::choose(0, 2, "shape") {
            0 => o,
            1 => { let l = del_leaf(t, &[b]); (bin(l.0, Operator::And, o.0), l.1 & o.1) }
            _ => { let l = del_leaf(t, &[b]); (bin(o.0, Operator::And, l.0), l.1 & o.1) }
        };
        exact(&e.0, e.1, t, &[b]);
    }
    fn delete_precision() {
        // a table of any precision, literals in nanoseconds (the time column is cast, or not) or in the unit of the table
        let t = sx::i64("t");
        let (p, step, unit) = [(Precision::MS, 1_000_000i64, TimeUnit::Millisecond), (Precision::US, 1_000, TimeUnit::Microsecond), (Precision::NS, 1, TimeUnit::Nanosecond)][sx::choose(0, 2, "precision")].clone();
        let own = sx::bool("own unit");
        let n = sx::choose(1, sx::param("leaves", 2) as usize, "leaves");
        let mut want = true;
        let mut e = None;
        for _ in 0..n {
            let (o, k) = (op("op"), sx::i64("k"));
            let time = Expr::Column(Column::from_name("time"));
            let (l, s, c) = if own {
                let l = match unit { TimeUnit::Millisecond => ScalarValue::TimestampMillisecond(Some(k), None), TimeUnit::Microsecond => ScalarValue::TimestampMicrosecond(Some(k), None), _ => ScalarValue::TimestampNanosecond(Some(k), None) };
                (l, 1, time)
            } else {
                let c = if sx::choose(0, 1, "cast") == 1 { Expr::Cast(Cast { expr: Box::new(time), data_type: DataType::Timestamp(TimeUnit::Nanosecond, None) }) } else { time };
                (ScalarValue::TimestampNanosecond(Some(k), None), step, c)
            };
            // t * s against k, without overflow: k = q * s + r
            let (q, r) = (k.div_euclid(s), k.rem_euclid(s));
            want &= match o {
                Operator::Eq => (t == q) & (r == 0),
                Operator::NotEq => (t != q) | (r != 0),
                Operator::Lt => (t < q) | ((t == q) & (r != 0)),
                Operator::LtEq => t <= q,
                Operator::Gt => t > q,
                _ => (t > q) | ((t == q) & (r == 0)),
            };
            let x = bin(c, o, Expr::Literal(l));
            e = Some(match e { None => x, Some(e) => bin(e, Operator::And, x) });
        }
        let (tag, time) = match DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(&e.unwrap()) { Ok(d) => d, Err(_) => { sx::check!(false, "a comparison of time with a timestamp is understood"); return } };
        sx::check!(tag.is_all(), "no tag is restricted");
        let mut hit = false;
        for r in filter_to_time_ranges_with_precision(&time, p) { hit |= r.contains(t); }
        if hit { sx::cover("deleted") } else { sx::cover("kept") }
        sx::check!(hit == want, "a DELETE by time removes exactly the timestamps selected, in the precision of the table");
    }
}
