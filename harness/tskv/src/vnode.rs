//! The files a vnode has: what its summary gives back after a restart is what the running vnode had.
use std::collections::HashMap;
use std::sync::Arc;
use meta::model::AdminMeta;
use models::codec::Encoding;
use models::schema::database_schema::{DatabaseConfig, DatabaseOptions, DatabaseSchema};
use tokio::sync::RwLock;
use tskv::kv_option::{Options, QueryOptions, StorageOptions, WalOptions};
use tskv::tsfamily::level_info::LevelInfo;
use tskv::tsfamily::summary::{Summary, SummaryRequest};
use tskv::tsfamily::tseries_family::{TseriesFamily, TsfFactory};
use tskv::tsfamily::version::{CompactMeta, Version, VersionEdit};
use tskv::{file_utils, TsKvContext};
use utils::BloomFilter;
use utils::precision::Precision;
use crate::mem::pool;

pub const ID: u32 = 7;
pub fn config() -> DatabaseConfig { DatabaseConfig::new(Precision::NS, 1 << 30, 2, 1 << 30, false, false, 4) }
pub fn db_schema() -> DatabaseSchema { DatabaseSchema::new("t", "d", DatabaseOptions::default(), Arc::new(config())) }
pub fn context(max_summary_size: u64) -> Arc<TsKvContext> {
    let t = std::time::Duration::from_secs(1);
    let (compact_task_sender, _) = tokio::sync::mpsc::channel(4);
    Arc::new(TsKvContext {
        meta: AdminMeta::new(Default::default()),
        runtime: Arc::new(tokio::runtime::Runtime),
        options: Arc::new(Options {
            storage: Arc::new(StorageOptions {
                path: "/s".into(),
                node_id: 1,
                max_summary_size,
                base_file_size: 1 << 20,
                flush_req_channel_cap: 1,
                max_level: 4,
                compact_trigger_file_num: 4,
                compact_trigger_cold_duration: t,
                max_compact_size: 1 << 30,
                max_concurrent_compaction: 1,
                collect_compaction_metrics: false,
                snapshot_holding_time: 1,
                max_datablock_size: sx::param("block", 100),
                index_cache_capacity: 16,
                tsm_meta_compress: Encoding::Null,
            }),
            wal: Arc::new(WalOptions { path: "/w".into(), wal_max_file_size: 1 << 30, compress: Encoding::Null, wal_sync: false }),
            query: Arc::new(QueryOptions { max_server_connections: 1, auth_enabled: false, query_sql_limit: 1, write_sql_limit: 1, read_timeout: t, write_timeout: t, stream_trigger_cpu: 1, stream_executor_cpu: 1 }),
        }),
        metrics: Default::default(),
        memory_pool: pool(),
        compact_task_sender,
    })
}
/// An empty disk; checksums see what is known of the data.
pub fn start() {
    sxfs::wipe();
    crc32fast::abstracted(true);
}
/// What a vnode's files are.
#[derive(Clone)]
struct Model { seq: u64, files: Vec<CompactMeta>, given: u64 }
fn path(c: &TsKvContext) -> std::path::PathBuf { file_utils::make_tsfamily_summary_file(c.options.storage.ts_family_dir("t.d", ID)) }
fn same(v: &Version, m: &Model, msg: &str) {
    sx::check!(v.last_seq() == m.seq, msg);
    sx::check!(v.tf_id() == ID && v.owner().as_str() == "t.d", msg);
    let mut n = 0;
    for (i, l) in v.levels_info().iter().enumerate() {
        let mut want: Vec<_> = m.files.iter().filter(|f| f.level as usize == i).collect();
        want.sort_by_key(|f| f.file_id);
        sx::check!(l.files.len() == want.len() && l.level as usize == i, msg);
        let (mut lo, mut hi, mut size) = (i64::MAX, i64::MIN, 0u64);
        for (f, w) in l.files.iter().zip(&want) {
            sx::check!(f.file_id() == w.file_id && f.level() == w.level && f.is_delta() == w.is_delta, msg);
            sx::check!(!f.is_deleted(), msg);
            sx::check!((f.time_range().min_ts == w.min_ts) & (f.time_range().max_ts == w.max_ts) & (f.size() == w.file_size), msg);
            sx::check!(*f.file_path() == w.file_path(&v.storage_opt(), "t.d", ID), msg);
            lo = lo.min(w.min_ts);
            hi = hi.max(w.max_ts);
            size += w.file_size;
            n += 1;
        }
        sx::check!(l.disk_storage() == size && l.cur_size == size, "a level knows how large it is");
        sx::check!((l.time_range.min_ts == lo) & (l.time_range.max_ts == hi), "a level knows the time its files span");
        sx::check!(v.max_level_ts() >= hi, "a version knows the last time it has in its files");
    }
    sx::check!(n == m.files.len(), msg);
}
/// The summary and the vnode's family, as opening a vnode makes them.
fn open(c: &Arc<TsKvContext>) -> (Summary, Arc<RwLock<TseriesFamily>>, bool) {
    crate::record::no_footer_at(&path(c));
    let mut s = match sx::now(Summary::new(ID, c.clone(), path(c))) { Ok(s) => s, Err(_) => sx::fail("a summary can be opened") };
    let f = TsfFactory::new(c.clone(), Arc::new("t.d".to_string()), Arc::new(config()));
    match sx::now(s.recover(&db_schema())) {
        Ok(Some(v)) => { let t = f.create_tsf(ID, s.file_id(), Arc::new(v)); (s, t, true) }
        Ok(None) => {
            let o = Arc::new("t.d".to_string());
            let levels = LevelInfo::init_levels(o.clone(), ID, c.options.storage.clone());
            let cache = Arc::new(cache::ShardedAsyncCache::create_lru_sharded_cache(4));
            let v = Version::new(ID, o, c.options.storage.clone(), 0, levels, i64::MIN, cache);
            let t = f.create_tsf(ID, s.file_id(), Arc::new(v));
            let r = SummaryRequest { version_edit: VersionEdit::new_add_vnode(ID, "t.d".into(), 0), mem_caches: None, file_metas: None, ts_family: t.clone() };
            sx::check!(sx::now(s.apply_version_edit(&r)).is_ok(), "a vnode can be added");
            (s, t, false)
        }
        Err(_) => sx::fail("a summary can be recovered"),
    }
}
const LIVE: &str = "a vnode has the files its edits gave it";
const BACK: &str = "a restarted vnode has the files it had";
/// A number as wide as the bounds say.
fn word(name: &str) -> i64 { match sx::param("bits", 4) { 4 => (sx::u8(name) << 4) as i8 as i64 >> 4, 8 => sx::u8(name) as i8 as i64, 16 => sx::u16(name) as i16 as i64, _ => sx::i64(name) } }
/// One flush or compaction: files come and go, and the last write that is in files moves on.
fn step(c: &Arc<TsKvContext>, s: &mut Summary, t: &Arc<RwLock<TseriesFamily>>, m: &mut Model) {
    let seq = word("seq") as u64;
    let mut e = VersionEdit::new_update_vnode(ID, "t.d".into(), seq);
    m.seq = m.seq.max(seq);
    let kind = sx::choose(0, 3, "kind");
    let mut add = |e: &mut VersionEdit, m: &mut Model, level: u32| {
        let id = s.next_file_id();
        sx::check!(id > m.given, "a file gets a number no file had before");
        m.given = id;
        let (a, b) = (word("time"), word("time"));
        sx::assume(a <= b);
        let f = CompactMeta::new(ID, id, 100 + id, level, a, b);
        let last = sx::now(t.read()).version().max_level_ts();
        e.add_file(f.clone(), last.max(b));
        m.files.push(f);
    };
    // 0: a flush without rows; 1: a flush; 2: a compaction that leaves nothing; 3: a compaction to the next level
    if kind == 2 || kind == 3 {
        if m.files.is_empty() { sx::stop() }
        let k = sx::choose(0, m.files.len() - 1, "gone");
        let f = m.files.remove(k);
        e.del_file(f.level, f.file_id, f.is_delta);
        if kind == 3 { add(&mut e, m, (f.level + 1).min(4)) }
        sx::cover("compacted");
    }
    if kind == 1 { add(&mut e, m, 0) }
    let metas: HashMap<_, _> = e.add_files.iter().map(|f| (f.file_id, Arc::new(BloomFilter::new(64)))).collect();
    let r = SummaryRequest { version_edit: e, mem_caches: None, file_metas: Some(metas), ts_family: t.clone() };
    sx::check!(sx::now(s.apply_version_edit(&r)).is_ok(), "an edit can be applied");
    same(&sx::now(t.read()).version(), m, LIVE);
    // a summary written anew does not happen to look as if it ended in a footer
    let at = "/x/summary";
    sx::check!(sx::now(async { Summary::new(ID, c.clone(), at).await?.write_record(&t.read().await.build_version_edit()).await }).is_ok(), "a summary can be written");
    crate::record::no_footer_at(at.as_ref());
    let _ = sxfs::remove_file(at);
}
sx::harnesses! {
    fn summary_history() {
        start();
        // every edit is only added, or makes the summary be written anew; at any point the vnode is opened again
        let c = context(if sx::choose(0, 1, "rewrite") == 1 { sx::cover("rewritten"); 1 } else { 1 << 30 });
        let n = sx::param("n", 3);
        let mut m = Model { seq: 0, files: vec![], given: 0 };
        let (mut s, mut t, mut old) = open(&c);
        sx::check!(!old, "a new vnode is new");
        for i in 0..n {
            step(&c, &mut s, &t, &mut m);
            if i + 1 == n || sx::choose(0, 1, "reopen") == 1 {
                drop((s, t));
                (s, t, old) = open(&c);
                sx::check!(old, BACK);
                same(&sx::now(t.read()).version(), &m, BACK);
                sx::cover("reopened");
            }
        }
    }
    fn summary_torn() {
        start();
        // a crash cuts the summary anywhere behind the edits that were written whole
        let c = context(1 << 30);
        let mut m = Model { seq: 0, files: vec![], given: 0 };
        let (mut s, mut t, mut old) = open(&c);
        let a = sxfs::contents(path(&c)).unwrap_or_default().len();
        let before = m.clone();
        step(&c, &mut s, &t, &mut m);
        let d = sxfs::contents(path(&c)).unwrap_or_default();
        drop((s, t));
        let cut = sx::choose(a, d.len(), "cut");
        sxfs::put(path(&c), d[..cut].to_vec());
        (s, t, old) = open(&c);
        sx::check!(old, BACK);
        m = if cut == d.len() { sx::cover("whole"); m } else { before };
        same(&sx::now(t.read()).version(), &m, BACK);
        let b = sxfs::contents(path(&c)).unwrap_or_default().len();
        step(&c, &mut s, &t, &mut m);
        drop((s, t));
        crate::record::tidy_at(&path(&c), &[4, a, b], if cut > a && cut < d.len() { Some(a) } else { None });
        (s, t, old) = open(&c);
        same(&sx::now(t.read()).version(), &m, BACK);
    }
    fn summary_rewrite_torn() {
        start();
        // a crash while the summary is written anew leaves a part of the new one beside the old one
        let c = context(1 << 30);
        let mut m = Model { seq: 0, files: vec![], given: 0 };
        let (mut s, mut t, mut old) = open(&c);
        step(&c, &mut s, &t, &mut m);
        let d = sxfs::contents(path(&c)).unwrap_or_default();
        drop((s, t));
        let c = context(1);
        let some = [0, 3, 4, 12, 20, d.len() - 1, d.len()];
        let cut = if sx::param("cuts", 0) == 0 { some[sx::choose(0, 6, "cut")] } else { sx::choose(0, d.len(), "cut") };
        sxfs::put(file_utils::make_summary_file_tmp(c.options.storage.ts_family_dir("t.d", ID)), d[..cut].to_vec());
        for _ in 0..2 {
            (s, t, old) = open(&c);
            sx::check!(old, BACK);
            same(&sx::now(t.read()).version(), &m, BACK);
            step(&c, &mut s, &t, &mut m);
            drop((s, t));
        }
        (s, t, old) = open(&c);
        same(&sx::now(t.read()).version(), &m, BACK);
        sx::cover("rewritten");
    }
}
