//! Record files: what was written whole is read back, in order, whatever a crash left behind it.
use std::path::Path;
use tskv::error::TskvError;
use tskv::record_file::*;
use utils_::*;
use crate::utils_;

const P: &str = "/d/r";
type Rec = (u8, u8, Vec<u8>);
fn rec(name: &str, lens: &[usize]) -> Rec {
    (sx::u8("version"), sx::u8("type"), sx::byte_vec(lens[sx::choose(0, lens.len() - 1, name)], name))
}
fn put(w: &mut Writer, r: &Rec) -> usize {
    match sx::now(w.write_record(r.0, r.1, &[&r.2])) {
        Ok(n) => n,
        Err(_) => sx::fail("a record can be written"),
    }
}
/// The file does not happen to look as if it ended in a footer.
fn no_footer() { no_footer_at(Path::new(P)) }
pub fn no_footer_at(p: &Path) {
    let d = sxfs::contents(p).unwrap_or_default();
    if d.len() >= FILE_MAGIC_NUMBER_LEN + FILE_FOOTER_LEN {
        let n = file_crc_source_len(d.len(), FILE_FOOTER_LEN);
        let f = &d[d.len() - FILE_FOOTER_LEN + 4..];
        sx::assume(crc32fast::hash(&d[4..4 + n]) != u32::from_be_bytes([f[0], f[1], f[2], f[3]]));
    }
}
fn open() -> Writer {
    match sx::now(Writer::open(Path::new(P), 16)) {
        Ok(w) => w,
        Err(_) => sx::fail("a record file can be opened for writing"),
    }
}
/// Every record the file gives, as recovery reads it.
fn all(r: &mut Reader) -> Vec<Rec> {
    let mut v = vec![];
    let mut n = 0;
    loop {
        n += 1;
        if n > 64 { sx::fail("reading a record file ends") }
        match sx::now(r.read_record()) {
            Ok(x) => v.push((x.data_version, x.data_type, x.data)),
            Err(TskvError::Eof) => return v,
            Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
            Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
            Err(_) => sx::fail("a record file can be read to its end"),
        }
    }
}
fn reader() -> Reader {
    match sx::now(Reader::open(Path::new(P))) {
        Ok(r) => r,
        Err(_) => sx::fail("a record file can be opened for reading"),
    }
}
fn same(got: &[Rec], want: &[Rec], msg: &str) {
    sx::check!(got.len() == want.len(), msg);
    for (g, w) in got.iter().zip(want) {
        sx::check!(g.2.len() == w.2.len(), msg);
        let mut eq = (g.0 == w.0) & (g.1 == w.1);
        for (a, b) in g.2.iter().zip(&w.2) { eq &= a == b }
        sx::check!(eq, msg);
    }
}
const BACK: &str = "a record file gives back the records written to it";
/// A crash can only be told from good data as well as the checksum tells it: nothing but the given places looks like the
/// beginning of a record, and the record that was torn at `torn` is not made whole by what follows it.
fn tidy(starts: &[usize], torn: Option<usize>) { tidy_at(Path::new(P), starts, torn) }
pub fn tidy_at(p: &Path, starts: &[usize], torn: Option<usize>) {
    let d = sxfs::contents(p).unwrap_or_default();
    let m = RECORD_MAGIC_NUMBER.to_be_bytes();
    let be = |w: &[u8]| u32::from_be_bytes([w[0], w[1], w[2], w[3]]);
    let mut any = false;
    for (i, w) in d.windows(4).enumerate() {
        if starts.contains(&i) || torn == Some(i) { continue }
        any |= be(w) == RECORD_MAGIC_NUMBER
    }
    sx::assume(!any);
    if let Some(t) = torn {
        if t + RECORD_HEADER_LEN <= d.len() && d[t..t + 4] == m {
            let n = u32::from_be_bytes([d[t + 6], d[t + 7], d[t + 8], d[t + 9]]) as usize;
            if t + RECORD_HEADER_LEN + n <= d.len() {
                let mut b = d[t + 4..t + 10].to_vec();
                b.extend_from_slice(&d[t + 14..t + 14 + n]);
                sx::assume(crc32fast::hash(&b) != be(&d[t + 10..]));
            }
        }
    }
}
sx::harnesses! {
    fn record_readback() {
        sxfs::wipe();
        // up to n records, closed and opened again after any of them, with or without a footer at the end
        let n = sx::choose(0, sx::param("n", 3) as usize, "n");
        let mut w = open();
        let mut recs = vec![];
        for _ in 0..n {
            let r = rec("data", &[1, 3, 33]);
            sx::check!(put(&mut w, &r) == RECORD_HEADER_LEN + r.2.len(), "the length of a record is its header and its data");
            recs.push(r);
            if sx::choose(0, 1, "reopen") == 1 {
                sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
                no_footer();
                w = open();
                sx::cover("reopened");
            }
        }
        if sx::choose(0, 1, "live") == 1 {
            let mut r = sx::now(w.new_reader()).ok().unwrap();
            same(&all(&mut r), &recs, BACK);
        }
        let foot = sx::choose(0, 1, "footer") == 1;
        let mut f = [0u8; FILE_FOOTER_LEN];
        if foot {
            for x in f.iter_mut() { *x = sx::u8("footer") }
            sx::check!(sx::now(w.write_footer(&mut f)).is_ok(), "a footer can be written");
            sx::cover("footer");
        }
        sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
        if !foot { no_footer() }
        let mut r = reader();
        if foot { sx::check!(r.footer() == Some(f), "a footer is read back") }
        same(&all(&mut r), &recs, BACK);
        if foot {
            // going on behind the footer takes the footer's place
            let mut w = open();
            let r = rec("more", &[1, 40]);
            put(&mut w, &r);
            sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
            recs.push(r);
            no_footer();
            same(&all(&mut reader()), &recs, BACK);
        }
        if n == 3 { sx::cover("three") }
    }
    fn record_torn() {
        sxfs::wipe();
        // the file is cut at any byte; what was whole is still there, and writing goes on
        let n = sx::choose(1, sx::param("n", 2) as usize, "n");
        let mut w = open();
        let mut recs = vec![];
        let mut starts = vec![FILE_MAGIC_NUMBER_LEN];
        let mut at = FILE_MAGIC_NUMBER_LEN;
        for _ in 0..n {
            let r = rec("data", if n > 1 { &[6, 1][..sx::param("lens", 2) as usize] } else { &[1, 6] });
            at += put(&mut w, &r);
            starts.push(at);
            recs.push(r);
        }
        sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
        drop(w);
        tidy(&starts, None);
        let disk = sxfs::contents(P).unwrap();
        sx::check!(disk.len() == at, "the file holds its records and nothing else");
        let cut = sx::choose(0, at, "cut");
        sxfs::put(P, disk[..cut].to_vec());
        no_footer();
        let whole = starts.iter().skip(1).filter(|e| **e <= cut).count();
        if whole == 1 && n == 2 && cut > starts[1] + RECORD_HEADER_LEN { sx::cover("torn-data") }
        same(&all(&mut reader()), &recs[..whole], "what a crash left whole is read, and nothing else");
        recs.truncate(whole);
        let mut w = open();
        let torn = if cut > starts[whole] { Some(starts[whole]) } else { None };
        starts.truncate(whole);
        for _ in 0..sx::choose(1, sx::param("more", 1) as usize, "more") {
            let r = rec("more", &[1, 20]);
            starts.push(w.file_size() as usize);
            put(&mut w, &r);
            recs.push(r);
        }
        sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
        no_footer();
        tidy(&starts, torn);
        same(&all(&mut reader()), &recs, "what is written after a crash is read with what was whole before it");
        sx::cover("went-on");
    }
    fn record_changed() {
        sxfs::wipe();
        // one byte of a record changes on disk: the record is not given out, the others are
        let n = sx::choose(1, sx::param("n", 2) as usize, "n");
        let mut w = open();
        let mut recs = vec![];
        let mut starts = vec![FILE_MAGIC_NUMBER_LEN];
        for _ in 0..n {
            let r = rec("data", &[sx::param("len", 4) as usize]);
            let at = starts[starts.len() - 1] + put(&mut w, &r);
            starts.push(at);
            recs.push(r);
        }
        sx::check!(sx::now(w.close()).is_ok(), "a record file can be closed");
        drop(w);
        let mut disk = sxfs::contents(P).unwrap();
        let i = sx::choose(0, n - 1, "record");
        let at = sx::choose(0, starts[i + 1] - starts[i] - 1, "byte");
        if (6..10).contains(&at) { sx::assume(false) } // the length: nothing guarantees that another length is noticed
        let d = sx::u8("change");
        sx::assume(d != 0);
        disk[starts[i] + at] ^= d;
        sxfs::put(P, disk);
        no_footer();
        tidy(&starts, None);
        recs.remove(i);
        if at < 4 { sx::cover("magic") } else if at >= 14 { sx::cover("data") }
        same(&all(&mut reader()), &recs, "a changed record is not given out, the others are");
    }
}
