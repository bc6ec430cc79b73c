//! What was deleted from a data file stays deleted, and nothing else is.
use std::path::Path;
use std::sync::Arc;
use models::predicate::domain::TimeRange;
use tskv::file_utils;
use tskv::tsm::TsmTombstone;
use utils::BloomFilter;
use crate::mem::tr;
use crate::vnode::start;

const DIR: &str = "/t";
fn file() -> std::path::PathBuf { file_utils::make_tsm_tombstone_file(DIR, 1) }
fn open() -> TsmTombstone {
    crate::record::no_footer_at(&file());
    match sx::now(TsmTombstone::open(DIR, 1)) { Ok(t) => t, Err(_) => sx::fail("the deletions of a file can be loaded") }
}
/// Deletions of columns (by series and column), and of whole rows.
#[derive(Clone, Default)]
struct Model { one: Vec<(u32, u32, TimeRange)>, all: Vec<TimeRange> }
impl Model {
    fn all(&self, t: i64) -> bool { self.all.iter().fold(false, |x, r| x | r.contains(t)) }
    fn one(&self, s: u32, c: u32, t: i64) -> bool { self.one.iter().filter(|x| x.0 == s && x.1 == c).fold(false, |x, r| x | r.2.contains(t)) }
}
/// At any moment, and for any stretch of time asked about.
fn same(t: &TsmTombstone, m: &Model, msg: &str) {
    let ts = sx::i64("at");
    let (a, b) = if sx::param("wide", 0) == 1 { (sx::i64("from"), sx::i64("to")) } else { (ts, ts) };
    sx::assume((a <= ts) & (ts <= b));
    let q = TimeRange::new(a, b);
    let has = |v: &[TimeRange]| v.iter().fold(false, |x, r| x | r.contains(ts));
    let all = has(&t.get_all_fields_excluded_time_range(&q));
    sx::check!(all == m.all(ts), msg);
    for s in 1..3u32 { for c in 2..4u32 {
        let one = has(&t.get_column_overlapped_time_ranges(s, c, &q));
        sx::check!((all | one) == (m.all(ts) | m.one(s, c, ts)), msg);
    } }
    sx::check!(t.is_empty() == (m.one.is_empty() && m.all.is_empty()), "a file knows whether anything was deleted from it");
}
fn delete(t: &TsmTombstone, m: &mut Model) {
    let r = tr("range");
    // (1,2), (1,3), (2,2) or several of them, some of them not in the file
    let cols: &[(u32, u32)] = match sx::choose(0, sx::param("columns", 2) as usize, "columns") { 0 => &[(1, 2)], 1 => &[(1, 2), (1, 3)], _ => &[(2, 2), (1, 3)] };
    let bloom = (sx::param("filters", 0) == 1 && sx::choose(0, 1, "filter") == 1).then(|| { let mut b = BloomFilter::new(64); b.insert(&1u32.to_be_bytes()); Arc::new(b) });
    sx::check!(sx::now(t.add_range(cols, r, bloom.clone())).is_ok(), "a deletion can be added");
    sx::check!(sx::now(t.flush()).is_ok(), "deletions can be flushed");
    for (s, c) in cols { if bloom.as_ref().map_or(true, |b| b.maybe_contains(&s.to_be_bytes())) { m.one.push((*s, *c, r)) } }
}
const LIVE: &str = "what was deleted from a file is what deletions named";
const BACK: &str = "a reopened file has the deletions it had";
sx::harnesses! {
    fn tomb_history() {
        start();
        let mut m = Model::default();
        let mut t = open();
        let mut tmp: Option<TimeRange> = None;
        for _ in 0..sx::param("n", 3) {
            match sx::choose(0, 3, "op") {
                0 => delete(&t, &mut m),
                1 => { drop(t); tmp = None; t = open(); same(&t, &m, BACK); sx::cover("reopened"); }
                2 => {
                    // a compaction takes part of the file over
                    if tmp.is_some() { sx::stop() }
                    let r = tr("compacted");
                    match sx::now(t.add_range_and_compact_to_tmp(r)) {
                        Ok(x) => { let ts = sx::i64("in"); sx::check!(x.contains(ts) == (m.all(ts) | r.contains(ts)), "a compaction is told what is left of a file") }
                        Err(_) => sx::fail("deletions can be prepared"),
                    }
                    tmp = Some(r);
                }
                _ => {
                    let Some(r) = tmp.take() else { sx::stop() };
                    sx::check!(sx::now(t.replace_with_compact_tmp()).is_ok(), "prepared deletions can be installed");
                    m.all.push(r);
                    sx::cover("compacted");
                }
            }
        }
        same(&t, &m, LIVE);
        drop(t);
        same(&open(), &m, BACK);
    }
    fn tomb_torn() {
        start();
        let mut m = Model::default();
        let t = open();
        let mut models = vec![(0, m.clone())];
        let mut starts = vec![];
        for _ in 0..sx::param("n", 2) {
            starts.push(sxfs::contents(file()).map_or(4, |d| d.len()));
            delete(&t, &mut m);
            let d = sxfs::synced(file()).unwrap_or_default();
            sx::check!(Some(&d) == sxfs::contents(file()).as_ref(), "a flushed deletion is on disk");
            models.push((d.len(), m.clone()));
        }
        drop(t);
        let mut d = sxfs::contents(file()).unwrap();
        let cut = sx::choose(0, d.len(), "cut");
        crate::record::tidy_at(&file(), &starts, None);
        d.truncate(cut);
        sxfs::put(file(), d);
        let mut m = models.iter().rev().find(|x| x.0 <= cut).unwrap().1.clone();
        let t = open();
        same(&t, &m, "a deletion that was whole is kept when a crash tears the next");
        if sx::param("more", 1) == 1 {
            starts.retain(|s| *s < cut);
            let torn = starts.last().copied().filter(|_| !models.iter().any(|x| x.0 == cut));
            starts.push(sxfs::contents(file()).map_or(4, |d| d.len().max(4)));
            delete(&t, &mut m);
            drop(t);
            crate::record::tidy_at(&file(), &starts, torn);
            same(&open(), &m, BACK);
            sx::cover("went on");
        }
    }
}
