//! Reading: rows of the same time in several places are one row, and the newest value wins.
use std::sync::Arc;
use arrow_array::RecordBatch;
use arrow_schema::SchemaRef;
use cache::ShardedAsyncCache;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use futures::StreamExt;
use models::codec::Encoding;
use models::predicate::domain::{TimeRange, TimeRanges};
use models::schema::tskv_table_schema::TskvTableSchema;
use parking_lot::RwLock;
use tskv::mem_cache::series_data::SeriesData;
use tskv::reader::sort_merge::sort_merge;
use tskv::reader::{DataReference, SchemableMemoryBatchReaderStream};
use tskv::tsfamily::column_file::ColumnFile;
use tskv::tsfamily::version::CompactMeta;
use tskv::tsm::writer::TsmWriter;
use crate::files::{key, open, record_batch, rows_of, Rows};
use crate::mem::{same, schema, time, value};
use crate::vnode::{context, start, ID};

const COLS: [u32; 2] = [2, 3];
/// What merging gives, batch by batch.
fn merge(streams: Vec<Vec<RecordBatch>>, s: SchemaRef, size: usize) -> Rows {
    let n: usize = streams.iter().flatten().map(|b| b.num_rows()).sum();
    let streams = SchemableMemoryBatchReaderStream::new_partitions(s.clone(), streams);
    let Ok(mut m) = sort_merge(streams, s, size, "time", &ExecutionPlanMetricsSet::new()) else { sx::fail("streams can be merged") };
    let mut out = vec![];
    for _ in 0..n + 1 {
        match sx::now(m.next()) {
            None => return out,
            Some(Ok(b)) => { sx::check!(b.num_rows() > 0 && b.num_rows() <= size, "merged batches have the size asked for"); out.extend(rows_of(&b, &COLS)) }
            Some(Err(_)) => sx::fail("streams can be merged"),
        }
    }
    sx::fail("merging comes to an end")
}
fn newest(all: &[Rows]) -> Rows {
    let mut out: Rows = vec![];
    for (ts, r) in all.iter().flatten() {
        let mut i = 0;
        while i < out.len() && out[i].0 < *ts { i += 1 }
        if i == out.len() || out[i].0 != *ts { out.insert(i, (*ts, vec![None; 2])) }
        for (a, b) in out[i].1.iter_mut().zip(r) { if b.is_some() { *a = *b } }
    }
    out
}
fn row(ts: i64, nulls: bool) -> (i64, Vec<Option<i64>>) {
    let null = if nulls { sx::choose(0, 2, "null") } else { 0 };
    (ts, (1..=2).map(|k| if k == null { None } else { Some(value()) }).collect())
}
/// A batch; the table's columns are 2 and 3, rows here are by position.
fn batch_of(s: &TskvTableSchema, rows: &[(i64, Vec<Option<i64>>)]) -> RecordBatch {
    record_batch(s, &rows.iter().map(|x| { let mut r = vec![None; 6]; r[2] = x.1[0]; r[3] = x.1[1]; (x.0, r) }).collect())
}
sx::harnesses! {
    fn merge_streams() {
        start();
        let s = schema();
        let n = sx::param("rows", 2) as usize;
        let mut all = vec![];
        let mut streams = vec![];
        for _ in 0..sx::param("streams", 2) {
            let mut rows: Rows = vec![];
            for _ in 0..sx::choose(0, n, "rows") {
                let ts = time("ts");
                if let Some(l) = rows.last() { sx::assume(l.0 < ts) }
                rows.push(row(ts, sx::param("nulls", 1) == 1));
            }
            // in one batch, one row in each, or with an empty one in between
            let how = if rows.is_empty() { 0 } else { sx::choose(0, 2, "batches") };
            streams.push(match how {
                0 => vec![batch_of(&s, &rows)],
                1 => rows.chunks(1).map(|r| batch_of(&s, r)).collect(),
                _ => { let (a, b) = rows.split_at(1); vec![batch_of(&s, a), batch_of(&s, &[]), batch_of(&s, b)] }
            });
            all.push(rows);
        }
        let size = sx::choose(1, 3, "size");
        let got = merge(streams, s.to_record_data_schema(), size);
        for w in got.windows(2) { sx::check!(w[0].0 < w[1].0, "merged rows are in order, each time once") }
        same(&got, &newest(&all), "merging keeps the last value of every column");
        sx::cover("merged");
    }
    fn newest_first() {
        start();
        crc32fast::left_out(true);
        let s = schema();
        let opt = context(1 << 20).options.storage.clone();
        let mut t = match sx::now(TsmWriter::open(&"/f", 1, 0, false, Encoding::Null)) { Ok(t) => t, Err(_) => sx::fail("a file can be written") };
        sx::check!(sx::now(t.write_record_batch(0, key(0), Arc::new(s.clone()), batch_of(&s, &[(7, vec![Some(1), Some(1)])]))).is_ok(), "a block can be written");
        sx::check!(sx::now(t.finish()).is_ok(), "a file can be finished");
        let reader = Arc::new(open(t.path()));
        let chunk = reader.chunk().get(&0).cloned().unwrap();
        let cache = Arc::new(ShardedAsyncCache::create_lru_sharded_cache(4));
        // the places a row is in, from the oldest: levels 4 to 1, delta files, memory
        let n = sx::param("places", 3) as usize;
        let mut age: Vec<(usize, u64, DataReference, RecordBatch, Rows)> = vec![];
        for _ in 0..n {
            let kind = sx::choose(0, 5, "kind");
            let id = sx::u8("id") as u64;
            // delta files and memory are numbered in the order they came to be, and at each level there is one file for a time
            for a in &age { sx::assume(a.1 != id); if a.0 == kind { if kind < 4 { sx::stop() } sx::assume(a.1 < id) } else { sx::assume(a.0 < kind); if a.0 == 4 { sx::assume(a.1 < id) } } }
            let d = if kind < 5 {
                let m = CompactMeta { file_id: id, file_size: 1, tsf_id: ID, level: 4 - kind as u32, min_ts: 7, max_ts: 7, is_delta: kind == 4 };
                let f = ColumnFile::with_compact_data(&m, m.file_path(&opt, "t.d", ID), tokio::sync::RwLock::new(None), Arc::downgrade(&cache));
                DataReference::Chunk(chunk.clone(), reader.clone(), Arc::new(f))
            } else {
                DataReference::Memcache(Arc::new(RwLock::new(SeriesData::new(0, key(0)))), Arc::new(TimeRanges::new(vec![TimeRange::new(7, 7)])), id)
            };
            let r = vec![row(7, true)];
            age.push((kind, id, d, batch_of(&s, &r), r));
        }
        let all: Vec<Rows> = age.iter().map(|a| a.4.clone()).collect();
        // a query finds them in any order
        let first = sx::choose(0, n - 1, "first");
        age.rotate_left(first);
        if n > 2 && sx::choose(0, 1, "swapped") == 1 { age.swap(1, 2) }
        age.sort_by(|a, b| a.2.cmp(&b.2));
        let got = merge(age.into_iter().map(|a| vec![a.3]).collect(), s.to_record_data_schema(), 10);
        same(&got, &newest(&all), "a query gives the newest value, wherever it is");
        sx::cover("merged");
    }
}
