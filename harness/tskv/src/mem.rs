//! What a vnode's memory holds: the last value written to each column of each row, until it is deleted.
use std::sync::Arc;
use memory_pool::{GreedyMemoryPool, MemoryPoolRef};
use models::codec::Encoding;
use models::field_value::FieldVal;
use models::predicate::domain::{TimeRange, TimeRanges};
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::{ColumnId, SeriesKey, ValueType};
use tskv::mem_cache::memcache::MemCache;
use tskv::mem_cache::row_data::{OrderedRowsData, RowData};
use tskv::mem_cache::series_data::RowGroup;

pub fn pool() -> MemoryPoolRef { Arc::new(GreedyMemoryPool::new(1 << 30)) }
pub fn field(id: ColumnId) -> TableColumn {
    TableColumn::new(id, ["", "", "a", "b", "c", "d"][id as usize].to_string(), ColumnType::Field(ValueType::Integer), Encoding::Null)
}
pub fn schema() -> TskvTableSchema {
    let mut s = TskvTableSchema::new("t".into(), "d".into(), "m".into(), vec![
        TableColumn::new(0, "time".to_string(), ColumnType::Time(arrow_schema::TimeUnit::Nanosecond), Encoding::Null),
        TableColumn::new_tag_column(1, "tag".into()),
        field(2),
        field(3),
    ]);
    s.schema_version = 1;
    s
}
/// A time: any, or with `small=1` one of 256.
pub fn time(name: &str) -> i64 { if sx::param("small", 0) == 1 { sx::u8(name) as i64 } else { sx::i64(name) } }
pub fn tr(name: &str) -> TimeRange {
    let (a, b) = (time(name), time(name));
    sx::assume(a <= b);
    TimeRange::new(a, b)
}
/// The rows as they ought to be: sorted by time, one entry per timestamp.
#[derive(Default)]
pub struct Model { pub rows: Vec<(i64, [Option<i64>; 6])> }
impl Model {
    pub fn put(&mut self, ts: i64, f: &[(ColumnId, Option<i64>)]) {
        let mut i = 0;
        while i < self.rows.len() && self.rows[i].0 < ts { i += 1 }
        if i == self.rows.len() || self.rows[i].0 != ts { self.rows.insert(i, (ts, [None; 6])) }
        for (c, v) in f { if v.is_some() { self.rows[i].1[*c as usize] = *v } }
    }
    pub fn delete(&mut self, r: &TimeRange) { self.rows.retain(|x| x.0 < r.min_ts || x.0 > r.max_ts) }
    pub fn drop_column(&mut self, c: ColumnId) { for r in self.rows.iter_mut() { r.1[c as usize] = None } }
}
pub fn ids(s: &TskvTableSchema) -> Vec<ColumnId> { s.fields_orderby_id().iter().map(|c| c.id).collect() }
/// Any value, or (where values are only carried) one of its own.
pub fn value() -> i64 {
    static NEXT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1000);
    if sx::param("known", 0) == 1 { NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } else { sx::i64("value") }
}
/// One batch of rows for one series, as a write builds it: rows go in one after the other.
pub fn batch(s: &TskvTableSchema, n: usize, m: &mut Model) -> RowGroup {
    let mut rows = OrderedRowsData::new();
    let mut range = TimeRange::new(i64::MAX, i64::MIN);
    for _ in 0..n {
        let ts = time("ts");
        range.merge(&TimeRange::new(ts, ts));
        let mut f = vec![];
        let which = sx::choose(1, 3, "fields");
        for (k, c) in ids(s).into_iter().enumerate() {
            // the first column in or out, the others together
            let on = if k == 0 { which & 1 != 0 } else { which & 2 != 0 };
            f.push((c, on.then(value)));
        }
        m.put(ts, &f);
        rows.insert(RowData { ts, fields: f.iter().map(|x| x.1.map(FieldVal::Integer)).collect() });
    }
    RowGroup { schema: Arc::new(s.clone()), range, rows, size: 100 * n }
}
fn int(v: &Option<FieldVal>) -> Option<i64> {
    match v { Some(FieldVal::Integer(x)) => Some(*x), None => None, _ => sx::fail("a value keeps its type") }
}
pub fn same(got: &[(i64, Vec<Option<i64>>)], want: &[(i64, Vec<Option<i64>>)], msg: &str) {
    sx::check!(got.len() == want.len(), msg);
    for (g, w) in got.iter().zip(want) {
        sx::check!(g.0 == w.0, msg);
        for (a, b) in g.1.iter().zip(&w.1) {
            sx::check!(a.is_some() == b.is_some(), msg);
            if let (Some(a), Some(b)) = (a, b) { sx::check!(a == b, msg) }
        }
    }
}
fn read(c: &MemCache, sid: u32, cols: &[ColumnId], t: &TimeRanges) -> Vec<(i64, Vec<Option<i64>>)> {
    let mut v = vec![];
    if let Some(d) = c.read_series_data_by_id(sid) {
        d.read().read_data(cols, t, |r| v.push((r.ts, r.fields.iter().map(int).collect())));
    }
    v
}
sx::harnesses! {
    fn mem_history() {
        let p = pool();
        let c = MemCache::new(1, 1, 10000, 2, 0, &p);
        let mut s = schema();
        let mut m = [Model::default(), Model::default()];
        let steps = sx::param("len", 3) as usize;
        let mut size = 0;
        for step in 0..steps {
            let sid = if sx::param("series", 1) == 2 { sx::choose(0, 1, "series") } else { 0 };
            let op = if step == 0 { sx::choose(0, 1, "op") } else { sx::choose(0, 6, "op") };
            if sx::param("ops", 127) >> op & 1 == 0 { sx::stop() }
            match op {
                0 | 1 => {
                    let n = if op == 0 { 1 } else { 2 };
                    let g = batch(&s, n, &mut m[sid]);
                    size += g.size as u64;
                    sx::check!(c.write_group(sid as u32, SeriesKey::default(), step as u64 + 1, g).is_ok(), "a write that fits is taken");
                    sx::check!(c.seq_no() == step as u64 + 1, "the cache knows its last write");
                }
                2 => {
                    // a column comes with a write, or the cache is told of it first
                    let id = s.columns().len().max(4) as ColumnId;
                    if id > 4 { sx::stop() }
                    s.add_column(field(id));
                    s.schema_version += 1;
                    if sx::choose(0, 1, "told") == 1 { c.add_column(&[0, 1], &field(id)) }
                    sx::cover("column added");
                }
                3 => {
                    if !s.contains_column("a") { sx::stop() }
                    s.drop_column("a");
                    s.schema_version += 1;
                    c.drop_columns(&[0, 1], &[2]);
                    m[0].drop_column(2);
                    m[1].drop_column(2);
                    sx::cover("column dropped");
                }
                4 => {
                    if !s.contains_column("b") { sx::stop() }
                    let mut n = field(3);
                    n.name = "renamed".into();
                    s.change_column("b", n.clone());
                    s.schema_version += 1;
                    c.change_column(&[0, 1], "b", &n);
                }
                5 => { let r = tr("delete"); c.delete_series(&[sid as u32], &r); m[sid].delete(&r) }
                _ => {
                    let (r, q) = (tr("delete"), tr("delete"));
                    c.delete_series_by_time_ranges(&[sid as u32], &TimeRanges::new(vec![r, q]));
                    m[sid].delete(&r);
                    m[sid].delete(&q);
                    sx::cover("deleted");
                }
            }
        }
        sx::check!(c.cache_size() == size, "the memory a cache accounts for is what was written to it");
        let cols = ids(&s);
        let t = tr("read");
        for sid in 0..sx::param("series", 1) as usize {
            let got = read(&c, sid as u32, &cols, &TimeRanges::new(vec![t]));
            let want: Vec<_> = m[sid].rows.iter().filter(|x| x.0 >= t.min_ts && x.0 <= t.max_ts).map(|x| (x.0, cols.iter().map(|c| x.1[*c as usize]).collect::<Vec<_>>())).collect();
            same(&got, &want, "memory gives the last value of every column of every row that was not deleted");
            let mut ts = vec![];
            c.read_series_timestamps(&[sid as u32], &TimeRanges::new(vec![t]), |x| ts.push(x));
            sx::check!(ts.len() == want.len(), "memory gives every timestamp once");
            for (a, b) in ts.iter().zip(&want) { sx::check!(*a == b.0, "memory gives every timestamp once") }
        }
    }
    fn mem_full() {
        // a write that does not fit the memory left is refused and leaves what was there
        let lim = sx::range(0, 400, "limit") as usize;
        let p: MemoryPoolRef = Arc::new(GreedyMemoryPool::new(lim));
        let max = sx::range(0, 400, "max");
        let c = MemCache::new(1, 1, max, 2, 0, &p);
        let s = schema();
        let mut m = Model::default();
        let mut size = 0u64;
        for i in 0..3 {
            let mut other = Model::default();
            let mut g = batch(&s, 1, &mut other);
            g.size = sx::range(1, 200, "size") as usize;
            let n = g.size as u64;
            let fits = size + n <= lim as u64;
            let r = c.write_group(i, SeriesKey::default(), 1, g);
            sx::check!(r.is_ok() == fits, "a write is taken when its memory is there, and refused when it is not");
            if fits { size += n; m.rows.push(other.rows[0]) } else { sx::cover("refused") }
            sx::check!(c.read_series_data_by_id(i).is_some() == fits, "a refused write leaves nothing behind");
            sx::check!(c.cache_size() == size && p.reserved() as u64 == size, "the memory accounted for is what was taken");
            sx::check!(c.is_full() == (size >= max), "a cache is full when it reaches its size");
        }
        drop(c);
        sx::check!(p.reserved() == 0, "a cache gives its memory back");
    }
}
