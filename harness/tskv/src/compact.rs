//! A compaction changes where rows are, not what they are.
use std::path::PathBuf;
use std::sync::Arc;
use cache::ShardedAsyncCache;
use models::codec::Encoding;
use models::predicate::domain::TimeRange;
use models::schema::tskv_table_schema::TskvTableSchema;
use models::SeriesId;
use tokio::sync::RwLock;
use tskv::compaction::metrics::VnodeCompactionMetrics;
use tskv::compaction::{run_delta_compaction_job, run_normal_compaction_job, CompactReq, CompactTask};
use tskv::kv_option::StorageOptions;
use tskv::tsfamily::column_file::ColumnFile;
use tskv::tsfamily::level_info::LevelInfo;
use tskv::tsfamily::version::{CompactMeta, Version, VersionEdit};
use tskv::tsm::reader::TsmReader;
use tskv::tsm::writer::TsmWriter;
use utils::id_generator::IDGenerator;
use crate::files::{key, no_footer, open, record_batch, rows, Rows};
use crate::mem::{field, time, ids, same, schema, tr, value};
use crate::vnode::{context, start, ID};

const COLS: [u32; 3] = [2, 3, 4];
type Cache = Arc<ShardedAsyncCache<String, Arc<TsmReader>>>;
struct World { opt: Arc<StorageOptions>, cache: Cache, next: u64 }
/// A file and the rows it is known to hold.
struct F { id: u64, level: u32, path: PathBuf, file: Arc<ColumnFile>, rows: [Rows; 2] }
/// The table as it is at a version: the third column came later.
fn table(v: u64) -> TskvTableSchema {
    let mut s = schema();
    if v > 1 { s.add_column(field(4)) }
    s.schema_version = v;
    s
}
fn version(w: &World) -> Arc<Version> {
    let o = Arc::new("t.d".to_string());
    let levels = LevelInfo::init_levels(o.clone(), ID, w.opt.clone());
    Arc::new(Version::new(ID, o, w.opt.clone(), 0, levels, i64::MIN, w.cache.clone()))
}
/// A file of up to two series, `n` rows each, in blocks of one row or of all.
fn make(w: &mut World, level: u32, n: usize) -> F {
    let id = w.next;
    w.next += 1;
    let dir = if level == 0 { w.opt.delta_dir("t.d", ID) } else { w.opt.tsm_dir("t.d", ID) };
    let which = if sx::param("series", 1) == 2 { sx::choose(1, 3, "series") } else { 1 };
    let split = sx::param("blocks", 0) == 1 && sx::choose(0, 1, "blocks") == 1;
    let mut t = match sx::now(TsmWriter::open(&dir, id, 0, level == 0, Encoding::Null)) { Ok(t) => t, Err(_) => sx::fail("a file can be written") };
    let mut out = [vec![], vec![]];
    for sid in 0..2usize {
        if which >> sid & 1 == 0 { continue }
        let s = table(if sx::param("versions", 1) == 2 { sx::choose(1, 2, "version") as u64 } else { 1 });
        let mut last = None;
        for _ in 0..n {
            let ts = time("ts");
            if let Some(l) = last { sx::assume(ts > l) }
            last = Some(ts);
            let mut r = vec![None; 6];
            let null = if sx::param("nulls", 1) == 1 { sx::choose(0, 2, "null") } else { 0 };
            for (k, c) in ids(&s).into_iter().enumerate() { if k + 1 != null { r[c as usize] = Some(value()) } }
            out[sid].push((ts, r));
        }
        for b in out[sid].chunks(if split { 1 } else { n }) {
            sx::check!(sx::now(t.write_record_batch(sid as SeriesId, key(sid as u32), Arc::new(s.clone()), record_batch(&s, &b.to_vec()))).is_ok(), "a block can be written");
        }
    }
    sx::check!(sx::now(t.finish()).is_ok(), "a file can be finished");
    let meta = CompactMeta { file_id: id, file_size: t.size(), tsf_id: ID, level, min_ts: t.min_ts(), max_ts: t.max_ts(), is_delta: level == 0 };
    let mut f = add(w, &meta, out);
    // what was deleted from it since
    if sx::param("deletes", 0) == 1 && sx::choose(0, 1, "deleted") == 1 {
        let d = tr("deleted");
        let r = open(&f.path);
        let all = sx::choose(0, 1, "columns") == 1;
        let cols: Vec<_> = COLS[..if all { 3 } else { 1 }].iter().map(|c| (0u32, *c)).collect();
        sx::check!(sx::now(r.tombstone().add_range(&cols, d, None)).is_ok() && sx::now(r.tombstone().flush()).is_ok(), "a deletion can be added");
        no_footer(&f.path);
        for x in f.rows[0].iter_mut() { if d.contains(x.0) { for (_, c) in &cols { x.1[*c as usize] = None } } }
        sx::cover("deleted");
    }
    f
}
fn add(w: &World, m: &CompactMeta, rows: [Rows; 2]) -> F {
    let path = m.file_path(&w.opt, "t.d", ID);
    let file = Arc::new(ColumnFile::with_compact_data(m, &path, RwLock::new(None), Arc::downgrade(&w.cache)));
    F { id: m.file_id, level: m.level, path, file, rows }
}
/// The rows of files put together: per time and column, the value of the last file that has one.
fn merged(files: &[&F], sid: usize) -> Rows {
    let mut out: Rows = vec![];
    for f in files {
        for (ts, r) in &f.rows[sid] {
            let mut i = 0;
            while i < out.len() && out[i].0 < *ts { i += 1 }
            if i == out.len() || out[i].0 != *ts { out.insert(i, (*ts, vec![None; 6])) }
            for (a, b) in out[i].1.iter_mut().zip(r) { if b.is_some() { *a = *b } }
        }
    }
    out
}
/// As a reader sees them: rows without any value are none.
fn seen(r: &Rows) -> Rows { r.iter().map(|x| (x.0, if x.1.len() == 6 { COLS.iter().map(|c| x.1[*c as usize]).collect() } else { x.1.clone() })).filter(|x| x.1.iter().any(|v| v.is_some())).collect() }
fn in_order(r: &Rows) { for w in r.windows(2) { sx::check!(w[0].0 < w[1].0, "a compacted file has each time once, in order") } }
/// The one file a compaction made, if any.
fn result(w: &mut World, e: &VersionEdit, level: u32, rows_: [Rows; 2]) -> Option<(F, TsmReader)> {
    let Some(m) = e.add_files.first() else {
        sx::check!(seen(&rows_[0]).is_empty() && seen(&rows_[1]).is_empty(), "what is compacted is written");
        return None;
    };
    sx::check!(e.add_files.len() == 1 && m.level == level && !m.is_delta && m.file_id >= w.next, "a compaction makes a file of its level");
    w.next = m.file_id + 1;
    let f = add(w, m, rows_);
    sx::check!(m.file_size == sxfs::contents(&f.path).map_or(0, |d| d.len() as u64) && sxfs::synced(&f.path) == sxfs::contents(&f.path), "a compacted file is on disk");
    let r = open(&f.path);
    for sid in 0..2 {
        let got = rows(&r, sid as u32, &COLS);
        in_order(&got);
        same(&seen(&got), &seen(&f.rows[sid]), "a compacted file holds the rows of what went into it");
        for x in &got { sx::check!((m.min_ts <= x.0) & (x.0 <= m.max_ts), "a compaction tells what time its file spans") }
    }
    Some((f, r))
}
fn normal(w: &mut World, files: &[&F]) -> Option<F> {
    let req = CompactReq::of(CompactTask::Normal(ID), IDGenerator::new(w.next), version(w), files.iter().map(|f| f.file.clone()).collect(), 1, 2, TimeRange::all());
    let e = match sx::now(run_normal_compaction_job(req, VnodeCompactionMetrics::none())) { Ok(Some((e, _))) => e, x => { for b in format!("{x:?}").bytes() { sx::trace(b as u64) } sx::fail("files can be compacted") } };
    sx::check!(e.del_files.len() == files.len() && e.partly_del_files.is_empty() && files.iter().all(|f| e.del_files.iter().any(|d| d.file_id == f.id && d.level == f.level)), "the files that went into a compaction go");
    let want = [merged(files, 0), merged(files, 1)];
    result(w, &e, 2, want).map(|x| x.0)
}
fn world() -> World {
    let opt = context(1 << 20).options.storage.clone();
    World { opt, cache: Arc::new(ShardedAsyncCache::create_lru_sharded_cache(4)), next: 1 }
}
sx::harnesses! {
    fn compact_normal() {
        start();
        crc32fast::left_out(true);
        let mut w = world();
        let n = sx::param("files", 2);
        let mut files = vec![];
        for _ in 0..n { files.push(make(&mut w, 1, sx::param("rows", 1) as usize)) }
        let f = normal(&mut w, &files.iter().collect::<Vec<_>>());
        sx::cover("compacted");
        // what came out goes into another one
        if sx::param("again", 0) == 1 {
            let Some(f) = f else { sx::stop() };
            let g = make(&mut w, 1, 1);
            normal(&mut w, &if sx::choose(0, 1, "older") == 1 { [&g, &f] } else { [&f, &g] });
            sx::cover("compacted again");
        }
    }
    fn compact_delta() {
        start();
        crc32fast::left_out(true);
        let mut w = world();
        let out = tr("taken over");
        let mut files = vec![];
        let level = sx::param("level", 1) == 1 && sx::choose(0, 1, "level file") == 1;
        let n = sx::param("rows", 1) as usize;
        if level {
            let f = make(&mut w, 1, n);
            // a level file is taken over whole
            let r = *f.file.time_range();
            sx::assume((out.min_ts <= r.min_ts) & (r.max_ts <= out.max_ts));
            files.push(f);
        }
        for _ in 0..sx::param("files", 1) { files.push(make(&mut w, 0, n)) }
        let req = CompactReq::of(CompactTask::Delta(ID), IDGenerator::new(w.next), version(&w), files.iter().map(|f| f.file.clone()).collect(), 0, 1, out);
        let e = match sx::now(run_delta_compaction_job(req, VnodeCompactionMetrics::none())) { Ok(Some((e, _))) => e, x => { for b in format!("{x:?}").bytes() { sx::trace(b as u64) } sx::fail("files can be compacted") } };
        let all: Vec<&F> = files.iter().collect();
        let want = [0, 1].map(|sid| { let mut r = merged(&all, sid); r.retain(|x| out.contains(x.0)); r });
        result(&mut w, &e, 1, want);
        for f in &files {
            let gone = e.del_files.iter().any(|d| d.file_id == f.id && d.level == f.level);
            let part = e.partly_del_files.iter().any(|d| d.file_id == f.id && d.level == f.level);
            sx::check!(gone != part, "a file that went into a compaction goes, wholly or in part");
            let rest: [Rows; 2] = [0, 1].map(|sid| f.rows[sid].iter().filter(|x| !out.contains(x.0)).cloned().collect());
            if gone { sx::check!(seen(&rest[0]).is_empty() && seen(&rest[1]).is_empty(), "rows that were not taken over stay"); sx::cover("gone"); continue }
            let r = open(&f.path);
            sx::check!(sx::now(r.replace_tombstone_with_compact_tmp()).is_ok(), "what was taken over can be taken out");
            let r = open(&f.path);
            for sid in 0..2 { same(&seen(&rows(&r, sid as u32, &COLS)), &seen(&rest[sid]), "what is left of a file is what was not taken over") }
            sx::cover("part");
        }
    }
}
