//! What data files hold: what memory held when it was flushed, minus what was deleted since, through compactions.
use std::path::{Path, PathBuf};
use std::sync::Arc;
use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, TimestampNanosecondArray};
use models::codec::Encoding;
use models::predicate::domain::TimeRange;
use models::schema::tskv_table_schema::{TableColumn, TskvTableSchema};
use models::{ColumnId, SeriesId, SeriesKey, Tag};
use parking_lot::RwLock;
use tskv::compaction::metrics::FlushMetrics;
use tskv::compaction::FlushTask;
use tskv::mem_cache::memcache::MemCache;
use tskv::tsm::reader::TsmReader;
use tskv::tsm::writer::TsmWriter;
use tskv::{file_utils, tsm};
use crate::mem::{batch, field, pool, same, schema, tr, Model};
use crate::vnode::start;

pub type Rows = Vec<(i64, Vec<Option<i64>>)>;
pub fn key(sid: SeriesId) -> SeriesKey { SeriesKey { tags: vec![Tag::new(b"tag".to_vec(), vec![sid as u8])], table: "m".into() } }
/// Deletions do not look like the end of a file by accident.
pub fn no_footer(p: &Path) {
    let id = file_utils::get_tsm_file_id_by_path(p).unwrap_or(0);
    crate::record::no_footer_at(&file_utils::make_tsm_tombstone_file(p.parent().unwrap(), id));
}
pub fn open(p: impl AsRef<Path>) -> TsmReader {
    no_footer(p.as_ref());
    match sx::now(TsmReader::open(p)) { Ok(r) => r, Err(_) => sx::fail("a finished file can be opened") }
}
fn column(b: &RecordBatch, id: ColumnId) -> Option<ArrayRef> {
    (0..b.num_columns()).find(|i| TableColumn::column_id_from_arrow_field(b.schema().fields()[*i].clone()).unwrap() == id).map(|i| b.column(i).clone())
}
/// The rows of a batch, by column id.
pub fn rows_of(b: &RecordBatch, cols: &[ColumnId]) -> Rows {
    let t = column(b, 0).unwrap_or_else(|| sx::fail("rows have their time"));
    let t = t.as_any().downcast_ref::<TimestampNanosecondArray>().unwrap_or_else(|| sx::fail("times stay times"));
    let mut out: Rows = (0..b.num_rows()).map(|i| { sx::check!(t.is_valid(i), "rows have their time"); (t.value(i), vec![]) }).collect();
    for c in cols {
        let a = column(b, *c);
        let a = a.as_ref().map(|a| a.as_any().downcast_ref::<Int64Array>().unwrap_or_else(|| sx::fail("a value keeps its type")));
        for (i, r) in out.iter_mut().enumerate() { r.1.push(a.filter(|a| a.is_valid(i)).map(|a| a.value(i))) }
    }
    out
}
/// All blocks of a series in the order they are in the file.
pub fn rows(r: &TsmReader, sid: SeriesId, cols: &[ColumnId]) -> Rows {
    let mut out = vec![];
    if let Some(c) = r.chunk().get(&sid) {
        sx::check!(*c.series_key() == key(sid), "a file knows the keys of its series");
        sx::check!(r.footer().maybe_series_exist(&sid), "a file's filter has its series");
        for id in c.column_group().keys() {
            match sx::now(r.read_record_batch(sid, *id)) { Ok(b) => out.extend(rows_of(&b, cols)), Err(_) => sx::fail("a block can be read") }
        }
    }
    out
}
pub fn record_batch(s: &TskvTableSchema, rows: &Rows) -> RecordBatch {
    let mut a: Vec<ArrayRef> = vec![Arc::new(TimestampNanosecondArray::from(rows.iter().map(|r| r.0).collect::<Vec<_>>()))];
    for c in crate::mem::ids(s) { a.push(Arc::new(Int64Array::from(rows.iter().map(|r| r.1[c as usize]).collect::<Vec<_>>()))) }
    RecordBatch::try_new(s.to_record_data_schema(), a).unwrap()
}
fn want(m: &Model, cols: &[ColumnId]) -> Rows { m.rows.iter().map(|r| (r.0, cols.iter().map(|c| r.1[*c as usize]).collect())).collect() }
sx::harnesses! {
    fn flush_readback() {
        start();
        crc32fast::left_out(true);
        let c = MemCache::new(1, 1, 10000, 2, 0, &pool());
        let mut s = schema();
        let mut m = [Model::default(), Model::default()];
        let zip = sx::param("zip", 0) == 1;
        for step in 0..sx::param("len", 2) {
            let sid = if step > 0 && sx::param("series", 1) == 2 { sx::choose(0, 1, "series") } else { 0 };
            match if step == 0 { 0 } else { sx::choose(0, 3, "op") } {
                0 => { let g = batch(&s, sx::param("rows", 1) as usize, &mut m[sid]); sx::check!(c.write_group(sid as u32, key(sid as u32), step as u64, g).is_ok(), "a write that fits is taken") }
                1 => {
                    if s.columns().len() > 4 { sx::stop() }
                    s.add_column(field(4));
                    s.schema_version += 1;
                    let g = batch(&s, 1, &mut m[sid]);
                    sx::check!(c.write_group(sid as u32, key(sid as u32), step as u64, g).is_ok(), "a write that fits is taken");
                    sx::cover("column added");
                }
                2 => {
                    if !s.contains_column("a") { sx::stop() }
                    s.drop_column("a");
                    s.schema_version += 1;
                    c.drop_columns(&[0, 1], &[2]);
                    m[0].drop_column(2);
                    m[1].drop_column(2);
                    sx::cover("column dropped");
                }
                _ => { let r = tr("delete"); c.delete_series(&[sid as u32], &r); m[sid].delete(&r); sx::cover("deleted") }
            }
        }
        let mut f = sx::now(FlushTask::new("t.d".into(), 7, Arc::new(RwLock::new(c)), PathBuf::from("/f"), if zip { Encoding::Zstd } else { Encoding::Null })).ok().unwrap();
        let level = sx::i64("level");
        let (e, filters) = match sx::now(f.run(level, 9, &mut FlushMetrics::default())) { Ok(x) => x, Err(_) => sx::fail("memory can be flushed") };
        sx::check!(e.seq_no == 9 && e.tsf_id == 7 && e.del_files.is_empty(), "a flush tells what it did");
        let cols = crate::mem::ids(&s);
        let path = file_utils::make_delta_file("/f", 1);
        if m[0].rows.is_empty() && m[1].rows.is_empty() {
            sx::check!(e.add_files.is_empty() && filters.is_empty() && sxfs::contents(&path).is_none(), "nothing to flush leaves no file");
            sx::cover("nothing");
            sx::stop();
        }
        sx::check!(e.add_files.len() == 1 && e.add_files[0].file_id == 1 && e.add_files[0].level == 0 && e.add_files[0].is_delta, "a flush makes one file");
        sx::check!(e.add_files[0].file_size == sxfs::contents(&path).map_or(0, |d| d.len() as u64), "a flush tells how large its file is");
        sx::check!(sxfs::synced(&path) == sxfs::contents(&path), "a flushed file is on disk");
        let r = open(&path);
        for sid in 0..2u32 {
            let w = want(&m[sid as usize], &cols);
            same(&rows(&r, sid, &cols), &w, "a flushed file holds what memory held");
            for x in &w {
                sx::check!((e.add_files[0].min_ts <= x.0) & (x.0 <= e.add_files[0].max_ts) & (x.0 <= e.max_level_ts), "a flush tells what time its file spans");
                sx::check!(filters[&1].maybe_contains(&sid.to_be_bytes()), "a flush gives the filter of its series");
            }
        }
        sx::check!(e.max_level_ts >= level, "what a flush made adds to what was there");
        // what is deleted from the file is gone from it, and nothing else
        if sx::param("delete", 1) == 1 {
            let d = tr("later");
            let how = sx::choose(0, 2, "how");
            let t = r.tombstone();
            match how {
                0 => { sx::check!(sx::now(t.add_range(&[(0, cols[0])], d, None)).is_ok() && sx::now(t.flush()).is_ok(), "a deletion can be added") }
                1 => { let all: Vec<_> = cols.iter().map(|c| (0, *c)).collect(); sx::check!(sx::now(t.add_range(&all, d, None)).is_ok() && sx::now(t.flush()).is_ok(), "a deletion can be added") }
                _ => {
                    sx::check!(sx::now(r.add_tombstone_and_compact_to_tmp(d)).is_ok(), "a compaction can take rows over");
                    sx::check!(sx::now(r.replace_tombstone_with_compact_tmp()).is_ok(), "a compaction can take rows over");
                }
            }
            drop(t);
            let r = if sx::choose(0, 1, "reopen") == 1 { drop(r); open(&path) } else { r };
            for sid in 0..2u32 {
                let mut w = want(&m[sid as usize], &cols);
                match how {
                    0 => for x in w.iter_mut() { if sid == 0 && d.contains(x.0) { x.1[0] = None } },
                    1 => for x in w.iter_mut() { if sid == 0 && d.contains(x.0) { for y in x.1.iter_mut() { *y = None } } },
                    _ => w.retain(|x| !d.contains(x.0)),
                }
                same(&rows(&r, sid, &cols), &w, "a file gives what was not deleted from it");
            }
            sx::cover("deleted later");
        }
    }
}
