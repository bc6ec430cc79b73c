//! A query of a series: what was written last, wherever it is, and of that what the query asks for.
use std::collections::HashMap;
use std::sync::Arc;
use cache::ShardedAsyncCache;
use datafusion::logical_expr::Operator;
use datafusion::physical_plan::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::PhysicalExpr;
use datafusion::scalar::ScalarValue;
use futures::StreamExt;
use models::codec::Encoding;
use models::meta_data::ReplicationSet;
use models::predicate::domain::{ColumnDomains, ResolvedPredicate, TimeRange, TimeRanges};
use models::predicate::PlacedSplit;
use models::schema::tskv_table_schema::TskvTableSchema;
use models::{SeriesId, SeriesKey, Tag};
use parking_lot::RwLock;
use tskv::mem_cache::memcache::MemCache;
use tskv::mem_cache::row_data::{OrderedRowsData, RowData};
use tskv::mem_cache::series_data::RowGroup;
use tskv::reader::{Predicate, QueryOption, SeriesGroupBatchReaderFactory};
use tskv::tsfamily::cache_group::CacheGroup;
use tskv::tsfamily::column_file::ColumnFile;
use tskv::tsfamily::level_info::LevelInfo;
use tskv::tsfamily::super_version::SuperVersion;
use tskv::tsfamily::version::{CompactMeta, Version};
use tskv::tsm::writer::TsmWriter;
use tskv::{Engine, TskvResult};
use crate::files::{no_footer, record_batch, rows_of, Rows};
use crate::mem::{field, ids, pool, same, schema, time, value};
use crate::vnode::{context, start, ID};

fn key(sid: SeriesId) -> SeriesKey { SeriesKey { tags: vec![Tag::new(b"1".to_vec(), vec![b'x' + sid as u8])], table: "m".into() } }
struct Keys;
#[async_trait::async_trait]
impl Engine for Keys {
    async fn get_series_key(&self, _: &str, _: &str, _: &str, _: u32, s: &[SeriesId]) -> TskvResult<Vec<SeriesKey>> { Ok(s.iter().map(|s| key(*s)).collect()) }
    async fn get_db_version(&self, _: &str, _: &str, _: u32) -> TskvResult<Option<Arc<SuperVersion>>> { Ok(None) }
    async fn get_series_id_by_filter(&self, _: &str, _: &str, _: &str, _: u32, _: &ColumnDomains<String>) -> TskvResult<Vec<SeriesId>> { Ok(vec![0]) }
}
fn table(v: u64) -> TskvTableSchema {
    let mut s = schema();
    if v > 1 { s.add_column(field(4)) }
    s.schema_version = v;
    s
}
fn compare(c: &str, i: usize, op: Operator, v: i64) -> Arc<dyn PhysicalExpr> {
    Arc::new(BinaryExpr::new(Arc::new(Column::new(c, i)), op, Arc::new(Literal::new(ScalarValue::Int64(Some(v))))))
}
sx::harnesses! {
    fn read_series() {
        start();
        crc32fast::left_out(true);
        let opt = context(1 << 20).options.storage.clone();
        let o = Arc::new("t.d".to_string());
        let cache = Arc::new(ShardedAsyncCache::create_lru_sharded_cache(4));
        let mut levels = LevelInfo::init_levels(o.clone(), ID, opt.clone());
        let mut mem = vec![];
        // from the oldest to the newest: a file of level 2, of level 1, delta files, memory being flushed, memory
        let kinds = sx::param("kinds", 5) as usize;
        let mut last = 0;
        let mut all: Vec<Rows> = vec![];
        let n = sx::param("places", 2) as usize;
        for p in 0..n {
            let kind = sx::choose(last, kinds - 1, "kind");
            if p > 0 && kind == last && (kind < 2 || kind == 4) { sx::stop() }
            last = kind;
            // file numbers: files of levels were given theirs when they were compacted
            let id = if kind < 2 { 10 * sx::choose(0, 1, "late") as u64 + p as u64 + 1 } else { p as u64 + 5 };
            let s = table(if sx::param("versions", 1) == 2 { sx::choose(1, 2, "version") as u64 } else { 1 });
            let mut rows: Rows = vec![];
            for _ in 0..sx::choose(1, sx::param("rows", 1) as usize, "rows") {
                let ts = time("ts");
                if let Some(l) = rows.last() { sx::assume(l.0 < ts) }
                let null = if sx::param("nulls", 1) == 1 { sx::choose(0, 2, "null") } else { 0 };
                let mut r = vec![None; 6];
                for (k, c) in ids(&s).into_iter().enumerate() { if k + 1 != null { r[c as usize] = Some(if k == 0 && sx::param("filter", 1) == 1 { sx::choose(5, 6, "a") as i64 } else { value() }) } }
                rows.push((ts, r));
            }
            if kind < 3 {
                let level = [2, 1, 0][kind];
                let dir = if level == 0 { opt.delta_dir("t.d", ID) } else { opt.tsm_dir("t.d", ID) };
                let mut t = match sx::now(TsmWriter::open(&dir, id, 0, level == 0, Encoding::Null)) { Ok(t) => t, Err(_) => sx::fail("a file can be written") };
                let blocks = if rows.len() > 1 && sx::choose(0, 1, "blocks") == 1 { 1 } else { rows.len() };
                for b in rows.chunks(blocks) {
                    sx::check!(sx::now(t.write_record_batch(0, key(0), Arc::new(s.clone()), record_batch(&s, &b.to_vec()))).is_ok(), "a block can be written");
                }
                sx::check!(sx::now(t.finish()).is_ok(), "a file can be finished");
                let m = CompactMeta { file_id: id, file_size: t.size(), tsf_id: ID, level, min_ts: t.min_ts(), max_ts: t.max_ts(), is_delta: level == 0 };
                let path = m.file_path(&opt, "t.d", ID);
                no_footer(&path);
                levels[level as usize].push_column_file(Arc::new(ColumnFile::with_compact_data(&m, &path, tokio::sync::RwLock::new(None), Arc::downgrade(&cache))));
            } else {
                let c = MemCache::new(ID, id, 10000, 2, 0, &pool());
                let mut d = OrderedRowsData::new();
                let mut range = TimeRange::new(i64::MAX, i64::MIN);
                for (ts, r) in &rows {
                    range.merge(&TimeRange::new(*ts, *ts));
                    d.insert(RowData { ts: *ts, fields: ids(&s).into_iter().map(|c| r[c as usize].map(models::field_value::FieldVal::Integer)).collect() });
                }
                sx::check!(c.write_group(0, key(0), 1, RowGroup { schema: Arc::new(s.clone()), range, rows: d, size: 100 }).is_ok(), "a write that fits is taken");
                mem.push(Arc::new(RwLock::new(c)));
            }
            all.push(rows);
        }
        let current = if last == 4 { mem.pop().unwrap() } else { Arc::new(RwLock::new(MemCache::new(ID, 9, 10000, 2, 0, &pool()))) };
        let version = Arc::new(Version::new(ID, o, opt, 0, levels, i64::MIN, cache));
        let sv = Arc::new(SuperVersion::new(ID, CacheGroup { mut_cache: current, immut_cache: mem }, version, 1));
        // what is asked for
        let s = table(sx::param("versions", 1));
        let filter = if sx::param("filter", 1) == 1 { sx::choose(0, 3, "filter") } else { 0 };
        let from = if filter & 2 != 0 { time("from") } else { i64::MIN };
        if filter & 2 != 0 { sx::assume(from > i64::MIN) }
        let a = (filter & 1 != 0).then(|| compare("a", 2, Operator::Eq, 5));
        let t = (filter & 2 != 0).then(|| compare("time", 0, Operator::Gt, from - 1));
        let expr: Option<Arc<dyn PhysicalExpr>> = match (a, t) { (Some(a), Some(t)) => Some(Arc::new(BinaryExpr::new(a, Operator::And, t))), (a, t) => a.or(t) };
        let ranges = Arc::new(TimeRanges::new(vec![TimeRange::new(from, i64::MAX)]));
        let limit = (sx::param("limit", 0) == 1 && filter & 1 == 0 && sx::choose(0, 1, "limited") == 1).then_some(1);
        let split = PlacedSplit::new(0, Arc::new(ResolvedPredicate::new(ranges, ColumnDomains::all(), None).ok().unwrap()), limit, ReplicationSet::new(0, 0, 0, vec![]));
        let arrow = s.to_arrow_schema();
        let s = Arc::new(s);
        let size = sx::choose(1, 2, "size");
        let q = QueryOption::new(size, split, None, arrow.clone(), s.clone(), HashMap::new());
        let f = SeriesGroupBatchReaderFactory::new(Arc::new(Keys), q, sv, trace::Span::noop(), ExecutionPlanMetricsSet::new());
        let predicate = Arc::new(Predicate::new(expr, arrow.clone(), limit));
        let Ok(r) = sx::now(f.create(trace::Span::noop(), &[0], Some(predicate))) else { sx::fail("a series can be read") };
        let mut got: Rows = vec![];
        if let Some(r) = r {
            let Ok(mut r) = r.process() else { sx::fail("a series can be read") };
            while let Some(b) = sx::now(r.next()) {
                let Ok(b) = b else { sx::fail("a series can be read") };
                sx::check!(b.schema().fields() == arrow.fields(), "rows have the columns asked for");
                sx::check!(b.num_rows() > 0, "no batch is empty");
                let tag = b.column(1).as_any().downcast_ref::<arrow_array::StringArray>().unwrap_or_else(|| sx::fail("rows have their tags"));
                for i in 0..b.num_rows() { sx::check!(tag.value(i) == "x", "rows have their tags") }
                got.extend(rows_of(&b, &ids(&s)));
            }
        }
        let mut want: Rows = vec![];
        for (ts, r) in all.iter().flatten() {
            let mut i = 0;
            while i < want.len() && want[i].0 < *ts { i += 1 }
            if i == want.len() || want[i].0 != *ts { want.insert(i, (*ts, vec![None; 6])) } else { sx::cover("in two places") }
            for (a, b) in want[i].1.iter_mut().zip(r) { if b.is_some() { *a = *b } }
        }
        want.retain(|x| x.0 >= from && (filter & 1 == 0 || x.1[2] == Some(5)));
        let want: Rows = want.into_iter().map(|x| (x.0, ids(&s).iter().map(|c| x.1[*c as usize]).collect())).collect();
        if want.is_empty() { sx::cover("nothing") } else { sx::cover("read") }
        // rows a condition on values leaves out may still come, the query filters again
        got.retain(|x| filter & 1 == 0 || x.1[0] == Some(5));
        let want: Rows = if let Some(l) = limit { want.into_iter().take(l).collect() } else { want };
        same(&got, &want, "a query gives what was written last");
    }
}
