//! C06-C12 and C21: saving to memory and disk.
use super::read::{check_saved, saved_bytes, KINDS};
use super::*;
use crate::gen::{self, Form, Opts};
use crate::io::*;
use crate::sys::{FsPlan, WFault};
use crate::{check, sched, vio};
use multipart::server::save::{Entries, EntriesSaveResult, PartialReason, SaveBuilder, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartData, MultipartField};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, ErrorKind, Read};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pol {
    Default,
    Try,
    Force,
    Ignore,
}

#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub m: u64,
    pub s: Option<u64>,
    pub c: Option<u32>,
    pub pol: Pol,
}

impl Lim {
    fn smax(&self) -> u64 {
        self.s.unwrap_or(u64::MAX)
    }
    fn mem(&self) -> u64 {
        self.m.min(self.smax())
    }
}

pub const MEMORY_DEFAULT: u64 = 10 * 1024;
pub const SIZE_DEFAULT: u64 = 8 * 1024 * 1024;
pub const COUNT_DEFAULT: u32 = 256;

pub fn with_lim<S>(mut b: SaveBuilder<S>, l: &Lim) -> SaveBuilder<S> {
    // in any order, and the last call decides
    let first = draw(3);
    let again = draw(12) == 11;
    for i in 0..6 {
        let wrong = i < 3;
        if wrong && !again {
            continue;
        }
        b = match (first + i) % 3 {
            0 if wrong => b.memory_threshold(draw(2000) as u64),
            1 if wrong => b.size_limit(draw(2000) as u64),
            _ if wrong => match draw(3) {
                0 => b.try_text(),
                1 => b.force_text(),
                _ => b.ignore_text(),
            },
            // what the defaults say need not be set
            0 if l.m == MEMORY_DEFAULT && !again && draw(4) == 3 => b,
            0 => b.memory_threshold(l.m),
            1 if l.s == Some(SIZE_DEFAULT) && !again && draw(2) == 1 => b,
            1 => b.size_limit(l.s),
            _ => match l.pol {
                Pol::Default if again => b.try_text(),
                Pol::Default => b,
                Pol::Try => b.try_text(),
                Pol::Force => b.force_text(),
                Pol::Ignore => b.ignore_text(),
            },
        };
    }
    b
}

#[derive(Clone, Debug)]
pub enum How {
    Temp,
    Prefix,
    TempDir,
    Dir(PathBuf),
    Entries(PathBuf),
}

/// An application may have asked for a larger buffer than usual.
fn buffer_more<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>) {
    if draw(8) == 7 {
        f.data.set_min_buf_size(pick(&[1usize, 3000, 8192, 20_000, 70_000, 140_000]));
    }
}

pub fn tmp() -> PathBuf {
    PathBuf::from(with(|s| format!("{}/up/tmp", s.fs.scratch)))
}
fn up() -> PathBuf {
    PathBuf::from(with(|s| format!("{}/up", s.fs.scratch)))
}

pub fn draw_how() -> How {
    match draw(6) {
        0 => How::Temp,
        1 => How::Prefix,
        2 => How::TempDir,
        3 => How::Dir(tmp().join("saves/deep/dir")),
        4 => How::Dir(tmp().join("saves")),
        _ => How::Entries(tmp().join("entries")),
    }
}

pub fn save<'a>(mp: &'a mut Mp, l: &Lim, how: &How) -> EntriesSaveResult<&'a mut Mp> {
    save_mode(mp, l, how, None)
}

/// as `save`, with files created in the given mode
pub fn save_mode<'a>(mp: &'a mut Mp, l: &Lim, how: &How, mode: Option<u32>) -> EntriesSaveResult<&'a mut Mp> {
    use std::os::unix::fs::OpenOptionsExt;
    let b = mp.save();
    let count = !(l.c == Some(COUNT_DEFAULT) && draw(2) == 1);
    let mut b = match draw(2) {
        0 if count => with_lim(b, l).count_limit(l.c),
        _ if count => with_lim(b.count_limit(l.c), l),
        _ => with_lim(b, l),
    };
    if let Some(m) = mode {
        b = b.mod_open_opts(|o| {
            o.mode(m);
        });
    }
    match how {
        How::Temp => b.temp(),
        How::Prefix => b.temp_with_prefix("upload-"),
        How::TempDir => {
            // alone in its parent, if that is there
            let nest = tmp().join("nest");
            let d = unarmed(|| tempfile::Builder::new().prefix("mine").tempdir_in(if nest.is_dir() { nest } else { tmp() }).expect("tempdir"));
            b.with_temp_dir(d)
        }
        How::Dir(p) => b.with_dir(p.clone()),
        How::Entries(p) => {
            let mut en = Entries::new(SaveDir::Perm(p.clone()));
            check!(en.fields_count() == 0 && en.is_empty() && en.recount_fields() == 0, "C06/count", "{} fields in new entries", en.fields_count());
            b.with_entries(en)
        }
    }
}

pub fn draw_m(form: &Form) -> u64 {
    match draw(11) {
        10 => huge(),
        0 => 10_240,
        1 => 0,
        2 => 1,
        3 => 16,
        4 => 1000,
        5 => 1024,
        6 => 8192,
        7 => u64::MAX,
        _ => near_len(form),
    }
}
/// a value at or next to the length of one of the fields
fn near_len(form: &Form) -> u64 {
    if form.fields.is_empty() {
        return 5;
    }
    let f = &form.fields[draw(form.fields.len() as u32) as usize];
    (f.data.len() as u64 + draw(3) as u64).saturating_sub(1)
}
pub fn draw_pol() -> Pol {
    pick(&[Pol::Default, Pol::Try, Pol::Ignore])
}

/// Short and interrupted file writes (and reads), which must never matter.
pub fn soft_disk() {
    let (a, b, c, d) = (pick(&[0u32, 0, 2, 3]), pick(&[0u32, 0, 3, 5]), pick(&[0u32, 0, 2]), pick(&[0u32, 0, 4]));
    with(|s| {
        s.fs.plan.short = a;
        s.fs.plan.eintr = b;
        s.fs.plan.read_short = c;
        s.fs.plan.read_eintr = d;
    });
}

/// All files below a directory with their contents, and all directories (None).
pub fn tree(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn go(d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                out.insert(p.clone(), None);
                go(&p, out);
            } else {
                out.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    unarmed(|| {
        let mut out = BTreeMap::new();
        go(dir, &mut out);
        out
    })
}

pub fn files(dir: &Path) -> BTreeSet<PathBuf> {
    tree(dir).into_iter().filter(|(_, v)| v.is_some()).map(|(k, _)| k).collect()
}

pub fn no_escapes(class: &str) {
    let e = with(|s| s.fs.escapes.clone());
    check!(e.is_empty(), format!("{}/escape", class).as_str(), "file system changes outside of what was asked for: {:?}", e);
}

fn entry_files(en: &Entries) -> Vec<PathBuf> {
    let mut v = Vec::new();
    for f in en.fields.values().flatten() {
        if let SavedData::File(p, _) = &f.data {
            v.push(p.clone());
        }
    }
    v
}

/// The files on disk are exactly the named ones.
fn check_files(class: &str, named: &[PathBuf], dir: Option<&Path>) {
    let set: BTreeSet<PathBuf> = named.iter().cloned().collect();
    check!(set.len() == named.len(), format!("{}/shared-file", class).as_str(), "two fields name the same file");
    if let Some(d) = dir {
        for p in named {
            check!(p.parent() == Some(d), format!("{}/wrong-dir", class).as_str(), "a file was saved to {:?}, not into {:?}", rel(p), rel(d));
        }
    }
    let real = files(&up());
    for p in &real {
        check!(set.contains(p), format!("{}/orphan", class).as_str(), "the file {:?} on disk is not named in the result", rel(p));
    }
    for p in &set {
        check!(real.contains(p), format!("{}/missing-file", class).as_str(), "the file {:?} named in the result is not on disk", rel(p));
    }
}

fn rel(p: &Path) -> String {
    let s = with(|s| s.fs.scratch.clone());
    p.to_string_lossy().replace(&s, "")
}

/// Read saved data back through the crate's own reader in a drawn way.
fn read_back(class: &str, d: &SavedData) -> Vec<u8> {
    let mut out = Vec::new();
    let mut r = match d.readable() {
        Ok(r) => r,
        Err(e) => vio!(format!("{}/readable", class).as_str(), "saved data cannot be opened: {}", e),
    };
    let plan = draw(4);
    let mut rounds = 0u64;
    loop {
        rounds += 1;
        check!(rounds < 100_000, format!("{}/readable", class).as_str(), "reading saved data back does not end");
        // `Read` and `BufRead` calls may be mixed
        let how = if plan < 3 || rounds > 200 { plan.min(2) } else { pick(&[2, 1, 2, 4, 3, 5, 0]) };
        if plan == 3 {
            probe("read-back-mixed");
        }
        let res = match how {
            0 => r.read_to_end(&mut out).map(|_| 0),
            1 => {
                let mut b = vec![0u8; if plan == 3 { pick(&[1usize, 100, 9000]) } else { 777 }];
                r.read(&mut b).map(|n| {
                    out.extend_from_slice(&b[..n]);
                    n
                })
            }
            3 => match r.read_until(b'\n', &mut out) {
                Ok(n) => Ok(n),
                Err(e) => Err(e),
            },
            4 => r.fill_buf().map(|b| b.len()),
            5 => super::read_some(&mut r, pick(&[50usize, 9000]), 1 + draw(4), &mut out),
            _ => {
                let n = match r.fill_buf() {
                    Ok(b) => {
                        let n = b.len().min(if plan == 3 { pick(&[500usize, 1, 20]) } else { 500 });
                        out.extend_from_slice(&b[..n]);
                        Ok(n)
                    }
                    Err(e) => Err(e),
                };
                if let Ok(n) = n {
                    r.consume(n);
                }
                n
            }
        };
        match res {
            Ok(0) => return out,
            Ok(_) => {}
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => vio!(format!("{}/readable", class).as_str(), "saved data cannot be read back: {}", e),
        }
    }
}

pub fn setup(o: &Opts) -> (Form, gen::Enc, Mp, SrcH) {
    let form = gen::form(o);
    let e = gen::encode(&form);
    let (r, h) = seg_src(&e);
    let mp = Multipart::with_body(r, form.boundary.as_str());
    (form, e, mp, h)
}

fn is_text(f: &gen::Field) -> bool {
    f.ctype.as_ref().map_or(true, |c| c.to_ascii_lowercase().starts_with("text/"))
}

// ---- C06 --------------------------------------------------------------------------------------

pub fn c06(_: &Arc<Ctx>) {
    let (form, _, mut mp, _) = setup(&Opts { max_fields: 6, max_len: 24_000, ..Opts::default() });
    let n = form.fields.len();
    let l = Lim {
        m: draw_m(&form),
        s: pick(&[None, Some(1 << 20)]),
        c: pick(&[None, Some(n as u32), Some(n as u32 + 3)]),
        pol: draw_pol(),
    };
    let how = draw_how();
    soft_disk();
    sample(|| format!("fields {}, {:?}, {:?}", describe(&form.fields), l, how));
    let en = match save(&mut mp, &l, &how) {
        SaveResult::Full(en) => en,
        SaveResult::Partial(p, r) => vio!("C06/partial", "a request within its limits was saved only partly ({} of {} fields): {:?}", p.entries.fields_count(), n, r),
        SaveResult::Error(e) => vio!("C06/error", "saving failed: {}", e),
    };
    check_saved("C06", &en, &form, &[], n);
    let mut mem = 0;
    for (name, v) in &en.fields {
        check!(!v.is_empty(), "C06/names", "no entries under {:?}", name);
        for f in v {
            let len = f.data.size();
            check!(f.data.is_memory() == !matches!(f.data, SavedData::File(..)), "C06/is-memory", "is_memory() is wrong");
            check!(
                f.data.is_memory() == (len <= l.m),
                "C06/placement",
                "a field of {} bytes was saved {} with a memory threshold of {}",
                len,
                if f.data.is_memory() { "in memory" } else { "to a file" },
                l.m
            );
            mem += f.data.is_memory() as usize;
            let d = read_back("C06", &f.data);
            let raw = saved_bytes("C06", &f.data);
            check!(d == raw, "C06/readable", "readable() yields other data: {}", diff(&d, &raw));
        }
    }
    probe(if mem == n { "all-in-memory" } else { "some-in-files" });
    let dir = en.save_dir.as_path().to_path_buf();
    check_files("C06", &entry_files(&en), Some(&dir));
    match &how {
        How::Temp | How::Prefix | How::TempDir => {
            check!(en.save_dir.is_temporary(), "C06/dir", "the save directory is not temporary");
            check!(dir.parent() == Some(&*tmp()), "C06/dir", "the temporary directory is at {:?}", rel(&dir));
            let nm = dir.file_name().unwrap().to_string_lossy().to_string();
            let want = match &how {
                How::Temp => "multipart-rs",
                How::Prefix => "upload-",
                _ => "mine",
            };
            check!(nm.starts_with(want), "C06/dir", "the temporary directory is named {:?}", nm);
        }
        How::Dir(p) | How::Entries(p) => {
            check!(!en.save_dir.is_temporary() && dir == *p, "C06/dir", "the save directory is {:?}", rel(&dir));
            if matches!(how, How::Dir(_)) {
                check!(unarmed(|| dir.is_dir()), "C06/dir", "the save directory {:?} was not made", rel(&dir));
            }
        }
    }
    no_escapes("C06");
}

// ---- C07 --------------------------------------------------------------------------------------

/// limits that only fit in 64 bits
pub fn huge() -> u64 {
    pick(&[1u64 << 16, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 300]) + draw(300) as u64
}

fn draw_s(form: &Form) -> u64 {
    match draw(10) {
        9 => huge(),
        0 => 0,
        1 => 1,
        2 => pick(&[1023u64, 1024, 1025]),
        3 => pick(&[8191u64, 8192, 8193, 10_240]),
        4 => draw(20_000) as u64,
        5 => draw(64) as u64,
        _ => near_len(form),
    }
}

/// what forced text may legitimately refuse: an invalid sequence within the part read to memory
fn force_may_fail(data: &[u8], l: &Lim) -> bool {
    let k = (l.mem().min(data.len() as u64)) as usize;
    match std::str::from_utf8(&data[..k]) {
        Ok(_) => false,
        Err(e) => e.error_len().is_some() || k == data.len(),
    }
}

/// `kept` of `data` under the size limit, with the reason of a partial result.
fn judge_limit(data: &[u8], kept: &[u8], l: &Lim, pol: Pol, reason: Option<&PartialReason>) {
    let s = l.smax();
    check!(kept.len() as u64 <= s, "C07/exceeded", "{} bytes were kept with a size limit of {} (field of {})", kept.len(), s, data.len());
    check!(kept.len() <= data.len() && *kept == data[..kept.len()], "C07/not-prefix", "{}", diff(kept, data));
    match reason {
        None => check!(kept.len() == data.len(), "C07/truncated", "a field of {} bytes was reported as saved in full with {} bytes (limit {})", data.len(), kept.len(), s),
        Some(PartialReason::SizeLimit) => {
            check!(data.len() as u64 > s, "C07/early", "a field of {} bytes was stopped by a size limit of {}", data.len(), s);
            check!(kept.len() as u64 == s, "C07/inexact", "{} bytes of {} were kept with a size limit of {}", kept.len(), data.len(), s);
        }
        Some(PartialReason::Utf8Error(_)) => {
            check!(pol == Pol::Force && force_may_fail(data, l), "C07/utf8", "an UTF-8 error for a field of {} bytes, limit {}, threshold {}, {:?}", data.len(), s, l.m, pol);
        }
        Some(r) => vio!("C07/reason", "the save stopped with {:?}", r),
    }
}

/// Everything the field still has to offer.
fn rest<M>(data: &mut MultipartData<M>, h: &SrcH) -> Vec<u8>
where
    MultipartData<M>: Read,
{
    let mut out = Vec::new();
    let mut buf = [0u8; 1500];
    let mut tries = 0;
    loop {
        match data.read(&mut buf) {
            Ok(0) => return out,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => {
                tries += 1;
                with_src(h, |s| s.heal());
                check!(tries < 20, "rest/error", "the rest of a field cannot be read: {}", e);
            }
        }
    }
}

/// A request with one field of more bytes than fit 32 bits, and a small one.
pub struct Giant {
    pub head: Vec<u8>,
    pub len: u64,
    pub tail: Vec<u8>,
    pub pos: u64,
}
impl Read for Giant {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let (h, t) = (self.head.len() as u64, self.tail.len() as u64);
        let (from, left) = match self.pos {
            p if p < h => (&self.head[p as usize..], 0),
            p if p < h + self.len => (&b""[..], h + self.len - p),
            p => (&self.tail[(p - h - self.len).min(t) as usize..], 0),
        };
        let n = if left > 0 {
            let n = left.min(buf.len() as u64) as usize;
            buf[..n].fill(b'x');
            n
        } else {
            let n = from.len().min(buf.len());
            buf[..n].copy_from_slice(&from[..n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}

/// A field beyond 4 GiB is cut, counted and recorded like any other.
fn giant(class: &str, to_disk: bool) {
    probe("giant");
    const K: u64 = 1 << 32;
    let len = K + 1000 + draw(100_000) as u64;
    let lim = match draw(5) {
        0 => None,
        4 => Some(SIZE_DEFAULT),
        1 => Some(len - 1 - draw(1000) as u64),
        2 => Some(K + draw(1000) as u64),
        _ => Some(len + K * draw(3) as u64),
    };
    sample(|| format!("a field of {} bytes, size limit {:?}", len, lim));
    let keep = lim.map_or(len, |l| l.min(len));
    let head = b"--B\r\nContent-Disposition: form-data; name=\"big\"; filename=\"f\"\r\nContent-Type: application/x\r\n\r\n".to_vec();
    let tail = b"\r\n--B\r\nContent-Disposition: form-data; name=\"small\"\r\n\r\nend\r\n--B--".to_vec();
    let mut mp = Multipart::with_body(Giant { head, len, tail, pos: 0 }, "B");
    if to_disk {
        with(|s| s.fs.blackhole = Some(0));
        let dir = tmp().join("giant");
        let (en, full) = match if lim == Some(SIZE_DEFAULT) { mp.save() } else { mp.save().size_limit(lim) }.with_dir(&dir) {
            SaveResult::Full(en) => (en, true),
            SaveResult::Partial(p, PartialReason::SizeLimit) => (p.keep_partial(), false),
            SaveResult::Partial(_, r) => vio!(class, "saving {} bytes stopped with {:?}", len, r),
            SaveResult::Error(e) => vio!(class, "saving {} bytes failed with {:?}", len, e),
        };
        let written = with(|s| s.fs.blackhole.take());
        check!(full == (keep == len), class, "a field of {} bytes with a limit of {:?} was {}", len, lim, if full { "saved in full" } else { "cut" });
        let size = en.fields.get("big").map(|v| v[0].data.size());
        check!(written == Some(keep) && size == written, class, "a field of {} bytes with a limit of {:?}: {:?} bytes written, {:?} recorded", len, lim, written, size);
    } else {
        struct Count(u64);
        impl std::io::Write for Count {
            fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                self.0 += buf.len() as u64;
                Ok(buf.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let mut f = mp.read_entry().ok().flatten().expect("the first field");
        let mut to = Count(0);
        let r = if lim == Some(SIZE_DEFAULT) { f.data.save() } else { f.data.save().size_limit(lim) }.write_to(&mut to);
        let (n, full) = match r {
            SaveResult::Full(n) => (n, true),
            SaveResult::Partial(n, PartialReason::SizeLimit) => (n, false),
            SaveResult::Partial(_, r) => vio!(class, "copying {} bytes stopped with {:?}", len, r),
            SaveResult::Error(e) => vio!(class, "copying {} bytes failed with {:?}", len, e),
        };
        check!(full == (keep == len) && to.0 == keep && n == keep, class, "a field of {} bytes with a limit of {:?}: {} bytes accepted, {} reported, full: {}", len, lim, to.0, n, full);
        check!(full || f.data.read(&mut [0; 4]).ok() == Some((len - keep).min(4) as usize), class, "what is left of the field after {} of {} bytes is gone", keep, len);
    }
    if lim.is_none() || keep == len {
        // nothing was cut
        let more = to_disk || matches!(mp.read_entry(), Ok(Some(ref f)) if &*f.headers.name == "small");
        check!(more, class, "the field after the long one is gone");
    }
}

pub fn c07(_: &Arc<Ctx>) {
    if special() {
        return giant("C07/giant", true);
    }
    let (form, _, mut mp, h) = setup(&Opts { max_fields: 4, max_len: 24_000, ..Opts::default() });
    let n = form.fields.len();
    let l = Lim { m: draw_m(&form), s: Some(draw_s(&form)), c: None, pol: pick(&[Pol::Default, Pol::Try, Pol::Ignore, Pol::Force]) };
    soft_disk();
    if draw(4) == 0 {
        with_src(&h, |s| s.eintr = 0);
    }
    sample(|| format!("fields {}, {:?}", describe(&form.fields), l));
    let no_disk = |what: &str| {
        if l.smax() <= l.m {
            let c = with(|s| s.fs.creates().len());
            check!(c == 0, "C07/disk", "the disk was touched by {} with a size limit of {} and a memory threshold of {}", what, l.smax(), l.m);
        }
    };
    if draw(2) == 0 {
        // whole request, resumed until it is done
        let how = draw_how();
        let mut res = save(&mut mp, &l, &how);
        let mut done = 0usize;
        // what the entries must hold: index -> kept length
        let mut have: Vec<(usize, usize)> = Vec::new();
        for round in 0.. {
            check!(round <= n + 1, "C07/endless", "the save does not end after {} resumptions for {} fields", round, n);
            let (en, full) = match res {
                SaveResult::Full(en) => {
                    for i in done..n {
                        check!(form.fields[i].data.len() as u64 <= l.smax(), "C07/unreported", "field {} of {} bytes exceeds the limit {} but the save was full", i, form.fields[i].data.len(), l.smax());
                        have.push((i, form.fields[i].data.len()));
                    }
                    (en, true)
                }
                SaveResult::Partial(mut p, reason) => {
                    let i = done + (p.entries.fields_count() as usize).saturating_sub(have.len());
                    check!(i < n, "C07/reason", "stopped with {:?} after the last field", reason);
                    for j in done..i {
                        have.push((j, form.fields[j].data.len()));
                    }
                    let Some(ps) = p.partial.as_mut() else { vio!("C07/partial", "no partial field with {:?}", reason) };
                    check_headers("C07/headers", &ps.source.headers, &form.fields[i]);
                    let Some(dest) = ps.dest.as_ref() else { vio!("C07/partial", "no data kept with {:?}", reason) };
                    let kept = saved_bytes("C07", dest);
                    let pol = if is_text(&form.fields[i]) { l.pol } else { Pol::Ignore };
                    judge_limit(&form.fields[i].data, &kept, &l, pol, Some(&reason));
                    probe("stopped-by-limit");
                    if draw(3) == 0 {
                        let r = rest(&mut ps.source.data, &h);
                        check!([&kept[..], &r].concat() == form.fields[i].data, "C07/lost", "kept {} and left {} of {} bytes", kept.len(), r.len(), form.fields[i].data.len());
                    }
                    done = i + 1;
                    if draw(2) == 0 {
                        have.push((i, kept.len()));
                        (p.keep_partial(), false)
                    } else {
                        if let SavedData::File(p, _) = dest {
                            let p = p.clone();
                            unarmed(|| std::fs::remove_file(p).ok());
                        }
                        (p.entries, false)
                    }
                }
                SaveResult::Error(e) => vio!("C07/error", "the save failed: {}", e),
            };
            no_disk("a request save");
            // exactly the expected entries, each at most `limit` bytes
            let cnt: usize = en.fields.values().map(|v| v.len()).sum();
            check!(cnt == have.len(), "C07/count", "{} entries, expected {}", cnt, have.len());
            for (name, v) in &en.fields {
                let want: Vec<_> = have.iter().filter(|(i, _)| form.fields[*i].name == **name).collect();
                check!(want.len() == v.len(), "C07/names", "{} entries named {:?}, expected {}", v.len(), name, want.len());
                for (f, (i, k)) in v.iter().zip(want) {
                    let d = saved_bytes("C07", &f.data);
                    check!(d.len() as u64 <= l.smax(), "C07/exceeded", "{} bytes saved with a size limit of {}", d.len(), l.smax());
                    check!(d == form.fields[*i].data[..*k], "C07/data", "field {}: {}", i, diff(&d, &form.fields[*i].data[..*k]));
                }
            }
            if full {
                check_files("C07", &entry_files(&en), None);
                break;
            }
            res = with_lim(mp.save(), &l).count_limit(l.c).with_entries(en);
        }
    } else {
        let mut i = 0;
        loop {
            match next(&mut mp) {
                Ok(Some(mut f)) => {
                    check!(i < n, "C07/extra", "extra field");
                    let want = &form.fields[i].data;
                    buffer_more(&mut f);
                    let style = draw(5);
                    if style == 4 {
                        let (w, k) = sink();
                        lk(&k).draw_soft();
                        let r = with_lim(f.data.save(), &l).write_to(w);
                        let got = lk(&k).buf.clone();
                        match r {
                            SaveResult::Full(c) => {
                                check!(c == got.len() as u64, "C07/write-count", "{} bytes reported, {} written", c, got.len());
                                judge_limit(want, &got, &l, Pol::Ignore, None)
                            }
                            SaveResult::Partial(c, r) => {
                                check!(c == got.len() as u64, "C07/write-count", "{} bytes reported, {} written", c, got.len());
                                judge_limit(want, &got, &l, Pol::Ignore, Some(&r))
                            }
                            SaveResult::Error(e) => vio!("C07/error", "write_to failed: {}", e),
                        }
                        let r = rest(&mut f.data, &h);
                        check!([&got[..], &r].concat() == *want, "C07/lost", "copied {} and left {} of {} bytes", got.len(), r.len(), want.len());
                    } else {
                        // a builder may be used again for what is left
                        let times = if draw(4) == 3 { 2 + draw(2) as usize } else { 1 };
                        let mut b = with_lim(f.data.save(), &l);
                        let mut kept = Vec::new();
                        for turn in 0..times {
                            let r = save_with(&mut b, if turn == 0 { style } else { draw(4) }, i + 100_000 * turn);
                            let (d, reason) = match r {
                                SaveResult::Full(d) => (d, None),
                                SaveResult::Partial(d, r) => (d, Some(r)),
                                SaveResult::Error(e) => vio!("C07/error", "saving a field failed: {}", e),
                            };
                            let part = saved_bytes("C07", &d);
                            check!(d.size() == part.len() as u64, "C07/size", "size() is {} for {} bytes", d.size(), part.len());
                            judge_limit(&want[kept.len()..], &part, &l, l.pol, reason.as_ref());
                            kept.extend_from_slice(&part);
                            if reason.is_some() {
                                probe("stopped-by-limit");
                            }
                            if turn > 0 {
                                probe("builder-used-again");
                            }
                        }
                        drop(b);
                        no_disk("a field save");
                        let r = rest(&mut f.data, &h);
                        check!([&kept[..], &r].concat() == *want, "C07/lost", "kept {} and left {} of {} bytes", kept.len(), r.len(), want.len());
                    }
                    i += 1;
                }
                Ok(None) => {
                    check!(i == n, "C07/early-end", "only {} of {} fields", i, n);
                    break;
                }
                Err(e) => vio!("C07/error", "read_entry failed: {}", e),
            }
        }
    }
    no_escapes("C07");
}

/// Save one field in one of the four ways.
fn save_field<M>(data: &mut MultipartData<M>, l: &Lim, style: u32, i: usize) -> SaveResult<SavedData, SavedData>
where
    M: multipart::server::ReadEntry,
{
    save_with(&mut with_lim(data.save(), l), style, i)
}

fn save_with<M>(b: &mut SaveBuilder<&mut MultipartData<M>>, style: u32, i: usize) -> SaveResult<SavedData, SavedData>
where
    M: multipart::server::ReadEntry,
{
    match style {
        0 => b.temp(),
        1 => b.with_filename(&format!("named-{}", i)),
        2 => b.with_dir(tmp().join("fielddir")),
        _ => b.with_path(tmp().join(format!("p/q/{}", i))),
    }
}

// ---- C08 --------------------------------------------------------------------------------------

pub fn c08(_: &Arc<Ctx>) {
    let (form, _, mut mp, h) = setup(&Opts { max_fields: 9, max_len: 6000, ..Opts::default() });
    let n = form.fields.len();
    let mut k = match draw(8) {
        7 => n as u32 / 2,
        _ if n > 200 && draw(3) > 0 => COUNT_DEFAULT,
        6 => pick(&[255u32, 256, 65_535, 65_536, 1 << 31, u32::MAX - 1]),
        0 => 0,
        1 => 1,
        2 => n as u32,
        3 => (n as u32).saturating_sub(1),
        4 => n as u32 + 1,
        _ => draw(n as u32 + 3),
    };
    let mut l = Lim { m: pick(&[0u64, 16, 10_240]), s: None, c: Some(k), pol: draw_pol() };
    let how = draw_how();
    soft_disk();
    sample(|| format!("fields {}, {:?}, {:?}", describe(&form.fields), l, how));
    // index of the next field on the wire, and what the entries hold
    let mut pos = 0usize;
    let mut have: Vec<usize> = Vec::new();
    let mut res = save(&mut mp, &l, &how);
    for round in 0.. {
        check!(round <= n + 2, "C08/endless", "{} resumptions for {} fields", round, n);
        let room = (k as usize).saturating_sub(have.len());
        let left = n - pos;
        let take = room.min(left);
        have.extend(pos..pos + take);
        pos += take;
        let mut en = match res {
            SaveResult::Full(en) => {
                check!(pos == n, "C08/full", "full success with a limit of {} although {} of {} fields had been read", k, pos, n);
                check_have(&en, &form, &have);
                check_files("C08", &entry_files(&en), None);
                probe("completed");
                return no_escapes("C08");
            }
            SaveResult::Partial(p, PartialReason::CountLimit) => {
                check!(pos < n, "C08/early", "the count limit of {} was reported for {} fields ({} kept)", k, n, have.len());
                check_have(&p.entries, &form, &have);
                let Some(mut ps) = p.partial else { vio!("C08/dropped", "the first field over the limit of {} is not handed back", k) };
                check!(ps.dest.is_none(), "C08/dest", "the field over the limit was saved");
                check_headers("C08/headers", &ps.source.headers, &form.fields[pos]);
                probe("count-limit");
                match draw(4) {
                    0 => probe("excess-skipped"),
                    1 => {
                        // part of it is read
                        let want = &form.fields[pos].data;
                        let mut b = vec![0u8; 1 + draw(2000) as usize];
                        let c = ps.source.data.read(&mut b).unwrap_or_else(|e| vio!("C08/rest", "cannot read the excess field: {}", e));
                        check!(c <= want.len() && b[..c] == want[..c], "C08/rest", "excess field: {}", diff(&b[..c], want));
                    }
                    _ => {
                        let r = rest(&mut ps.source.data, &h);
                        check!(r == form.fields[pos].data, "C08/rest", "excess field: {}", diff(&r, &form.fields[pos].data));
                    }
                }
                pos += 1;
                p.entries
            }
            SaveResult::Partial(_, r) => vio!("C08/reason", "the save stopped with {:?}", r),
            SaveResult::Error(e) => vio!("C08/error", "the save failed: {}", e),
        };
        match draw(4) {
            0 => probe("resumed-without-room"),
            1 => {
                k = k.saturating_add(1 + draw(3));
                probe("resumed-with-a-higher-limit");
            }
            2 => {
                k = u32::MAX;
            }
            _ => {
                // take out some entries to make room
                let names: Vec<_> = {
                    let mut v: Vec<_> = en.fields.keys().cloned().collect();
                    v.sort();
                    v
                };
                for nm in names {
                    if draw(2) == 1 {
                        let gone = en.fields.remove(&nm);
                        for f in gone.into_iter().flatten() {
                            if let SavedData::File(p, _) = f.data {
                                unarmed(|| std::fs::remove_file(p).ok());
                            }
                        }
                        have.retain(|&i| form.fields[i].name != *nm);
                    }
                }
                probe("resumed-after-removing-entries");
            }
        }
        l.c = if k == u32::MAX { None } else { Some(k) };
        res = with_lim(mp.save(), &l).count_limit(l.c).with_entries(en);
    }
}

fn check_have(en: &Entries, form: &Form, have: &[usize]) {
    let skip: Vec<usize> = (0..form.fields.len()).filter(|i| !have.contains(i)).collect();
    check_saved("C08", en, form, &skip, form.fields.len());
}

// ---- C09 --------------------------------------------------------------------------------------

const OPEN_ERR: &[i32] = &[libc::EMFILE, libc::EACCES, libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EROFS, libc::ENOENT];
const WRITE_ERR: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN];

pub fn hard_disk(total: u64) {
    let mut p = FsPlan::default();
    let k = 1 + draw(2);
    for _ in 0..k {
        match draw(6) {
            0 => p.open_create.push((1 + draw(4), pick(OPEN_ERR))),
            1 | 2 => {
                let f = if draw(6) == 0 { WFault::Zero } else { WFault::Err(pick(WRITE_ERR)) };
                p.write.push((1 + draw(if draw(2) == 0 { 4 } else { 30 }), f));
                p.write_sticky = draw(2) == 1;
            }
            3 => p.space = Some(draw(total.min(1 << 20) as u32 + 1) as u64),
            4 => p.space = Some(pick(&[0u64, 1, 10, 1000, 4096])),
            _ => p.mkdir.push((1 + draw(3), pick(&[libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EIO]))),
        }
    }
    p.short = pick(&[0u32, 0, 3]);
    p.eintr = pick(&[0u32, 0, 4]);
    with(|s| s.fs.plan = p);
}

fn check_reason(e: &std::io::Error) {
    let hard = with(|s| s.fs.hard.clone());
    check!(!hard.is_empty(), "C09/invented", "the save failed with {:?} although the disk did not", e);
    let first = hard[0];
    let ok = match first {
        0 => e.kind() == ErrorKind::WriteZero,
        c => e.raw_os_error() == Some(c) || e.kind() == std::io::Error::from_raw_os_error(c).kind(),
    };
    check!(ok, "C09/reason", "the disk failed with error {} but the save reported {:?}", first, e);
}

/// What was kept of a field followed by the rest is the field; bytes that were in memory when
/// writing them to the new file failed may be the exception.
fn check_kept(data: &[u8], dest: Option<&SavedData>, r: &[u8], l: &Lim) {
    let kept = dest.map_or(Vec::new(), |d| saved_bytes("C09", d));
    check!(kept.len() <= data.len() && kept[..] == data[..kept.len()], "C09/not-prefix", "what was kept is not a prefix of the field: {}", diff(&kept, data));
    let spill = match dest {
        Some(SavedData::File(_, k)) => *k < l.mem().min(data.len() as u64),
        _ => false,
    };
    if spill {
        probe("failed-while-moving-to-a-file");
        check!(data.ends_with(r), "C09/lost", "what is left ({} bytes) is not the end of the field", r.len());
    } else {
        check!(
            kept.len() + r.len() == data.len() && data.ends_with(r),
            "C09/lost",
            "{} bytes kept and {} left of a field of {} (kept as {})",
            kept.len(),
            r.len(),
            data.len(),
            dest.map_or("nothing", |d| if d.is_memory() { "memory" } else { "file" })
        );
    }
}

pub fn c09(_: &Arc<Ctx>) {
    let (form, e, mut mp, h) = setup(&Opts { max_fields: 5, max_len: 30_000, ..Opts::default() });
    let n = form.fields.len();
    let l = Lim {
        m: match draw(6) {
            0 | 1 => 0,
            2 => 16,
            3 => 1000,
            4 => 10_240,
            _ => near_len(&form),
        },
        s: pick(&[None, Some(1 << 20)]),
        c: None,
        pol: draw_pol(),
    };
    hard_disk(e.bytes.len() as u64);
    sample(|| format!("fields {}, {:?}, {:?}", describe(&form.fields), l, with(|s| s.fs.plan.clone())));
    let failed = || with(|s| !s.fs.hard.is_empty());
    if draw(2) == 0 {
        let how = draw_how();
        let mut res = save(&mut mp, &l, &how);
        let mut pos = 0usize;
        let mut have: Vec<usize> = Vec::new();
        let mut extra: Vec<PathBuf> = Vec::new();
        for round in 0.. {
            check!(round < 4, "C09/again", "the save fails again after the disk recovered");
            match res {
                SaveResult::Full(en) => {
                    check!(!failed(), "C09/hidden", "full success although the disk failed with {:?}", with(|s| s.fs.hard.clone()));
                    have.extend(pos..n);
                    let skip: Vec<usize> = (0..n).filter(|i| !have.contains(i)).collect();
                    check_saved("C09", &en, &form, &skip, n);
                    let mut named = entry_files(&en);
                    named.extend(extra);
                    check_files("C09", &named, None);
                    break;
                }
                SaveResult::Partial(mut p, PartialReason::IoError(err)) => {
                    check_reason(&err);
                    probe("disk-fault-partial");
                    let done = p.entries.fields_count() as usize - have.len();
                    have.extend(pos..pos + done);
                    pos += done;
                    let skip: Vec<usize> = (0..n).filter(|i| !have.contains(i)).collect();
                    check!(pos < n, "C09/extra", "a disk failure after the last field");
                    check_saved("C09", &p.entries, &form, &skip, n);
                    let mut named = entry_files(&p.entries);
                    let Some(ps) = p.partial.as_mut() else { vio!("C09/dropped", "the field being saved is not handed back") };
                    check_headers("C09/headers", &ps.source.headers, &form.fields[pos]);
                    if let Some(SavedData::File(f, _)) = &ps.dest {
                        named.push(f.clone());
                        extra.push(f.clone());
                    }
                    named.extend(extra.iter().cloned());
                    let set: BTreeSet<_> = named.into_iter().collect();
                    check_files("C09", &set.into_iter().collect::<Vec<_>>(), None);
                    let more = draw(3) == 0;
                    if !more {
                        with(|s| s.fs.heal());
                    }
                    if draw(3) > 0 {
                        let r = rest(&mut ps.source.data, &h);
                        check_kept(&form.fields[pos].data, ps.dest.as_ref(), &r, &l);
                    }
                    with(|s| {
                        s.fs.heal();
                        s.fs.hard.clear();
                    });
                    pos += 1;
                    let en = p.entries;
                    res = with_lim(mp.save(), &l).count_limit(l.c).with_entries(en);
                    continue;
                }
                SaveResult::Partial(_, r) => vio!("C09/reason", "a disk failure was reported as {:?}", r),
                SaveResult::Error(err) => {
                    check!(round == 0, "C09/start", "a resumed save failed at its start");
                    check_reason(&err);
                    probe("disk-fault-at-start");
                    check_files("C09", &[], None);
                    // nothing has been lost
                    with(|s| {
                        s.fs.heal();
                        s.fs.hard.clear();
                    });
                    res = save(&mut mp, &l, &How::Entries(tmp().join("again")));
                    continue;
                }
            }
        }
    } else {
        let mut i = 0;
        let mut named: Vec<PathBuf> = Vec::new();
        loop {
            match next(&mut mp) {
                Ok(Some(mut f)) => {
                    check!(i < n, "C09/extra", "extra field");
                    let want = &form.fields[i].data;
            buffer_more(&mut f);
                    let style = draw(4);
                    let r = save_field(&mut f.data, &l, style, i);
                    let (d, err) = match r {
                        SaveResult::Full(d) => (Some(d), None),
                        SaveResult::Partial(d, PartialReason::IoError(e)) => (Some(d), Some(e)),
                        SaveResult::Partial(_, r) => vio!("C09/reason", "a disk failure was reported as {:?}", r),
                        SaveResult::Error(e) => (None, Some(e)),
                    };
                    match &err {
                        None => check!(!failed(), "C09/hidden", "full success although the disk failed with {:?}", with(|s| s.fs.hard.clone())),
                        Some(e) => {
                            check_reason(e);
                            probe("disk-fault-field");
                        }
                    }
                    if let Some(SavedData::File(p, _)) = &d {
                        named.push(p.clone());
                    }
                    check_files("C09", &named, None);
                    let r = rest(&mut f.data, &h);
                    check_kept(want, d.as_ref(), &r, &l);
                    if err.is_some() {
                        with(|s| s.fs.hard.clear());
                        if draw(2) == 0 {
                            with(|s| s.fs.heal());
                        }
                    } else {
                        check!(d.map_or(false, |d| saved_bytes("C09", &d) == *want), "C09/data", "saved data differs");
                    }
                    i += 1;
                }
                Ok(None) => {
                    check!(i == n, "C09/early-end", "only {} of {} fields", i, n);
                    break;
                }
                Err(e) => vio!("C09/error", "read_entry failed: {}", e),
            }
        }
    }
    no_escapes("C09");
}

// ---- C10 --------------------------------------------------------------------------------------

pub fn c10(ctx: &Arc<Ctx>) {
    let tasks = 2 + draw(3) as usize;
    let collide = draw(3) > 0;
    let l = Lim { m: pick(&[0u64, 0, 8, 1000]), s: pick(&[None, None, Some(500)]), c: None, pol: Pol::Default };
    let style = draw(5);
    let dir = tmp().join("shared");
    let seed = with(|s| {
        s.entropy_collide = collide;
        s.entropy_seed
    });
    let named = |i: usize| -> PathBuf {
        match style {
            1 => tmp().join(format!("name-{}", i)),
            _ => dir.join(format!("x/path-{}", i)),
        }
    };
    let mut pre: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let put = |p: &Path, b: &[u8]| {
        unarmed(|| {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b).unwrap();
        });
    };
    if draw(2) == 0 {
        probe("file-exists-before");
        match style {
            1 | 2 => {
                let p = named(draw(2) as usize);
                put(&p, b"already here");
                pre.insert(p, b"already here".to_vec());
            }
            _ if collide => {
                // find out the first name the saves will draw, and occupy it
                let names: Arc<Mutex<Vec<PathBuf>>> = Arc::default();
                let n2 = names.clone();
                let d2 = dir.clone();
                let k = 1 + draw(2) as usize;
                let t: Box<dyn FnOnce() + Send> = Box::new(move || {
                    let body = b"--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nxx\r\n".repeat(k);
                    let body = [&body[..], b"--B--\r\n"].concat();
                    let (r, _) = src(Arc::new(body), Seg::Whole);
                    let mut mp = Multipart::with_body(r, "B");
                    while let Ok(Some(mut f)) = next(&mut mp) {
                        let r = match style {
                            0 => f.data.save().memory_threshold(0).temp(),
                            _ => f.data.save().memory_threshold(0).with_dir(&d2),
                        };
                        if let SaveResult::Full(SavedData::File(p, _)) = r {
                            lk(&n2).push(p);
                        }
                    }
                });
                sched::run_all(ctx, vec![t], 100_000);
                with(|s| {
                    s.entropy.clear();
                    s.entropy_seed = seed;
                });
                for p in lk(&names).iter() {
                    put(p, b"already here too");
                    pre.insert(p.clone(), b"already here too".to_vec());
                }
            }
            _ => {}
        }
    }
    let before = with(|s| s.fs.log.len());
    let out: Arc<Mutex<Vec<(usize, Vec<(PathBuf, Vec<u8>)>)>>> = Arc::default();
    soft_disk();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let mut descr = Vec::new();
    for t in 0..tasks {
        let mut form = gen::form(&Opts { max_fields: 3, max_len: 3000, ..Opts::default() });
        if form.fields.is_empty() {
            form.fields.push(gen::field(0, &form.boundary, &Opts { max_fields: 1, max_len: 3000, ..Opts::default() }));
        }
        // tell the requests apart
        for f in &mut form.fields {
            if f.data.len() > l.m as usize {
                let tag = format!("<task {}>", t);
                let k = tag.len().min(f.data.len());
                f.data[..k].copy_from_slice(&tag.as_bytes()[..k]);
                gen::scrub(&mut f.data, format!("--{}", form.boundary).as_bytes());
            }
        }
        descr.push(describe(&form.fields));
        let e = gen::encode(&form);
        let (r, _) = seg_src(&e);
        let out = out.clone();
        let dir = dir.clone();
        jobs.push(Box::new(move || {
            let mut mp = Multipart::with_body(r, form.boundary.as_str());
            let mut mine = Vec::new();
            let mut keep: Vec<Box<dyn std::any::Any>> = Vec::new();
            let judge_err = |e: &std::io::Error| {
                check!(e.kind() == ErrorKind::AlreadyExists, "C10/error", "a concurrent save failed with {:?}", e);
                probe("name-taken");
            };
            if style >= 3 {
                let how = if style == 3 { How::Dir(dir.clone()) } else { How::Entries(dir.clone()) };
                let (en, upto) = match save(&mut mp, &l, &how) {
                    SaveResult::Full(en) => {
                        let n = form.fields.len();
                        (en, n)
                    }
                    SaveResult::Partial(mut p, reason) => {
                        let i = p.entries.fields_count() as usize;
                        check!(i < form.fields.len(), "C10/extra", "partial result after the last field");
                        match reason {
                            PartialReason::IoError(e) => {
                                judge_err(&e);
                                let f = p.partial.as_mut().and_then(|p| p.dest.take());
                                if let Some(SavedData::File(p, _)) = f {
                                    vio!("C10/claims", "a save whose name was taken claims the file {:?}", rel(&p));
                                }
                            }
                            PartialReason::SizeLimit => {
                                if let Some(SavedData::File(f, k)) = p.partial.as_ref().and_then(|p| p.dest.as_ref()) {
                                    mine.push((f.clone(), form.fields[i].data[..*k as usize].to_vec()));
                                }
                            }
                            r => vio!("C10/reason", "a concurrent save stopped with {:?}", r),
                        }
                        (p.entries, i)
                    }
                    SaveResult::Error(e) => vio!("C10/error", "a concurrent save failed: {:?}", e),
                };
                check_saved("C10", &en, &form, &[], upto);
                for (name, v) in &en.fields {
                    let want: Vec<usize> = (0..upto).filter(|&i| form.fields[i].name == **name).collect();
                    for (f, &i) in v.iter().zip(&want) {
                        if let SavedData::File(p, _) = &f.data {
                            mine.push((p.clone(), form.fields[i].data.clone()));
                        }
                    }
                }
                keep.push(Box::new(en));
            } else {
                let mut i = 0;
                while let Ok(Some(mut f)) = next(&mut mp) {
                    check!(i < form.fields.len(), "C10/extra", "extra field");
                    let mut b = with_lim(f.data.save(), &l);
                    let r = match style {
                        0 => b.temp(),
                        1 => b.with_filename(&format!("name-{}", i)),
                        _ => b.with_path(dir.join(format!("x/path-{}", i))),
                    };
                    match r {
                        SaveResult::Full(d) | SaveResult::Partial(d, PartialReason::SizeLimit) => {
                            if let SavedData::File(p, k) = &d {
                                check!(*k as usize <= form.fields[i].data.len(), "C10/size", "recorded size {}", k);
                                mine.push((p.clone(), form.fields[i].data[..*k as usize].to_vec()));
                            } else {
                                probe("kept-in-memory");
                            }
                        }
                        SaveResult::Partial(d, PartialReason::IoError(e)) => {
                            judge_err(&e);
                            if let SavedData::File(p, _) = d {
                                vio!("C10/claims", "a save whose name was taken claims the file {:?}", rel(&p));
                            }
                        }
                        SaveResult::Partial(_, r) => vio!("C10/reason", "a concurrent save stopped with {:?}", r),
                        SaveResult::Error(e) => judge_err(&e),
                    }
                    i += 1;
                }
                check!(i == form.fields.len(), "C10/early-end", "only {} of {} fields", i, form.fields.len());
            }
            lk(&out).push((t, mine));
        }));
    }
    sample(|| format!("{} tasks, style {}, collide {}, {:?}: {}", tasks, style, collide, l, descr.join(" | ")));
    sched::run_all(ctx, jobs, 200_000);
    let out = lk(&out).clone();
    check!(out.len() == tasks, "C10/lost-task", "a task did not finish");
    let mut all: BTreeMap<PathBuf, (usize, Vec<u8>)> = BTreeMap::new();
    for (t, v) in &out {
        for (p, d) in v {
            check!(!pre.contains_key(p), "C10/stolen", "task {} was given the file {:?} which existed before", t, rel(p));
            if let Some((o, _)) = all.insert(p.clone(), (*t, d.clone())) {
                vio!("C10/shared", "tasks {} and {} were both given the file {:?}", o, t, rel(p));
            }
        }
    }
    let real = tree(&up());
    for (p, c) in &real {
        let Some(c) = c else { continue };
        match (all.get(p), pre.get(p)) {
            (Some((t, d)), _) => check!(c == d, "C10/mixed", "the file of task {} was changed: {}", t, diff(c, d)),
            (None, Some(d)) => check!(c == d, "C10/overwritten", "a file that existed before was changed: {}", diff(c, d)),
            (None, None) => vio!("C10/orphan", "the file {:?} belongs to no save", rel(p)),
        }
    }
    for p in all.keys().chain(pre.keys()) {
        check!(real.contains_key(p), "C10/deleted", "the file {:?} is gone", rel(p));
    }
    // created only where asked for
    let want_dir: PathBuf = match style {
        0 | 1 => tmp(),
        2 => dir.join("x"),
        _ => dir.clone(),
    };
    let log = with(|s| s.fs.log[before..].to_vec());
    for o in &log {
        if let crate::sys::FsOp::Open(p, fl, r) = o {
            if fl & libc::O_CREAT != 0 && *r >= 0 {
                check!(Path::new(p).parent() == Some(&*want_dir), "C10/outside", "a file was created at {:?}, not in {:?}", rel(Path::new(p)), rel(&want_dir));
                probe("file-created");
            }
            if fl & (libc::O_WRONLY | libc::O_RDWR) != 0 && *r >= 0 {
                check!(!pre.contains_key(Path::new(p)), "C10/opened", "an existing file was opened for writing");
            }
        }
    }
    no_escapes("C10");
}

// ---- C11 --------------------------------------------------------------------------------------

fn text_data(boundary: &str) -> Vec<u8> {
    let mut d: Vec<u8> = Vec::new();
    let k = draw(5);
    for _ in 0..k {
        match draw(7) {
            0 | 1 => {
                let n = 1 + draw(12);
                let mut r = Rng::new(draw(1 << 12) as u64);
                for _ in 0..n {
                    let c = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}'][r.below(8) as usize];
                    let mut b = [0; 4];
                    d.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
            }
            2 | 3 => {
                let n = match draw(7) {
                    0 | 1 => draw(40) as usize,
                    2 => (pick(&[1024usize, 2048, 8192, 1000]) + draw(13) as usize).saturating_sub(6),
                    // about as much as is kept in memory by default
                    3 => 10_234 + draw(13) as usize,
                    4 => 8000 + draw(2300) as usize,
                    _ => draw(3000) as usize,
                };
                let n = n.saturating_sub(d.len());
                d.extend(std::iter::repeat(b'q').take(n));
            }
            4 => d.extend_from_slice(pick(&[
                &b"\xff"[..], b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", b"\xe2\x28\xa1", b"\xf0\x9f",
            ])),
            5 => d.extend_from_slice(pick(ODD).as_bytes()),
            _ => {
                // multi-byte characters all the way, with a drawn offset
                d.extend(std::iter::repeat(b'o').take(draw(4) as usize));
                let n = 200 + draw(400);
                let c = pick(&["\u{e9}", "\u{20ac}", "\u{1f600}"]);
                for _ in 0..n {
                    d.extend_from_slice(c.as_bytes());
                }
            }
        }
    }
    match draw(12) {
        0 => drop(d.splice(..0, pick(ODD).bytes())),
        1 => d.extend_from_slice(pick(ODD).as_bytes()),
        _ => {}
    }
    gen::scrub(&mut d, format!("--{}", boundary).as_bytes());
    d
}

/// text that a well-meaning conversion might change
const ODD: &[&str] = &[
    "\r\n", "\n", "\r", "\0", " ", "\t", "\u{feff}", "\u{fffe}", "\u{fffd}", "\u{85}", "\u{2028}", "\u{a0}", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\u{1a}", "\u{200b}", "\u{7f}", "\x1b[0m", "%00", "&amp;", "\u{130}\u{df}",
];

pub fn c11(_: &Arc<Ctx>) {
    let bd = gen::boundary();
    let n = 1 + draw(3) as usize;
    let fields: Vec<Field> = (0..n).map(|i| Field { name: gen::name(i), filename: gen::filename(), ctype: gen::ctype(), data: text_data(&bd) }).collect();
    let form = Form { boundary: bd, fields };
    let mut e = gen::encode(&form);
    for (_, ds, de) in e.spans.clone() {
        // cuts inside the data, at character boundaries and inside characters
        for _ in 0..4 {
            e.marks.push(ds + draw((de - ds) as u32 + 1) as usize);
        }
    }
    let (r, h) = seg_src(&e);
    if chance(1, 5) {
        with_src(&h, |s| s.eintr = 0);
    }
    let l = Lim {
        m: match draw(9) {
            0 | 1 => 10_240,
            2 | 3 => u64::MAX,
            4 | 5 => near_len(&form),
            6 => huge(),
            _ => pick(&[0u64, 16, 1000, 1024]),
        },
        s: match draw(4) {
            0 | 1 => None,
            2 => Some(near_len(&form)),
            _ => Some(draw(3000) as u64),
        },
        c: None,
        pol: pick(&[Pol::Default, Pol::Try, Pol::Force, Pol::Ignore]),
    };
    sample(|| format!("fields {}, {:?}, segmentation {:?}", describe(&form.fields), l, with_src(&h, |s| s.seg.clone())));
    let mut mp = Multipart::with_body(r, form.boundary.as_str());
    let judge = |want: &[u8], pol: Pol, d: &SavedData, reason: Option<&PartialReason>, handed: &mut dyn FnMut() -> Option<Vec<u8>>| {
        let small = want.len() as u64 <= l.mem();
        let valid = std::str::from_utf8(want).is_ok();
        let got = saved_bytes("C11", d);
        check!(got.len() <= want.len() && got[..] == want[..got.len()], "C11/data", "{}", diff(&got, want));
        match reason {
            None => {
                check!(got.len() == want.len(), "C11/data", "{}", diff(&got, want));
                if small {
                    let text = matches!(d, SavedData::Text(_));
                    let expect = valid && pol != Pol::Ignore;
                    check!(d.is_memory(), "C11/placement", "a field of {} bytes went to a file with threshold {}", want.len(), l.m);
                    check!(text == expect, "C11/text", "a field of {} bytes, {} UTF-8, policy {:?} was saved as {}", want.len(), if valid { "valid" } else { "invalid" }, pol, if text { "text" } else { "bytes" });
                    check!(valid || pol != Pol::Force, "C11/forced", "invalid UTF-8 was accepted with forced text");
                    probe(if text { "saved-as-text" } else { "saved-as-bytes" });
                } else {
                    check!(want.len() as u64 <= l.smax(), "C11/limit", "a field over the size limit was saved in full");
                    check!(!matches!(d, SavedData::Text(_)), "C11/placement", "a field of {} bytes is in memory with threshold {}", want.len(), l.m);
                }
            }
            Some(PartialReason::Utf8Error(_)) => {
                check!(pol == Pol::Force, "C11/utf8-reason", "an UTF-8 error with policy {:?}", pol);
                check!(force_may_fail(want, &l), "C11/utf8-spurious", "an UTF-8 error for {} UTF-8 of {} bytes (threshold {}, limit {:?})", if valid { "valid" } else { "invalid" }, want.len(), l.m, l.s);
                probe("forced-text-refused");
                if let Some(r) = handed() {
                    check!([&got[..], &r].concat() == want, "C11/lost", "{} bytes kept and {} left of {}", got.len(), r.len(), want.len());
                }
            }
            Some(PartialReason::SizeLimit) => {
                check!(want.len() as u64 > l.smax(), "C11/limit", "the size limit {:?} stopped a field of {} bytes", l.s, want.len());
                check!(!(pol == Pol::Force && l.mem() == l.m && force_may_fail(want, &l)), "C11/forced", "invalid UTF-8 was accepted with forced text");
            }
            Some(r) => vio!("C11/reason", "the save stopped with {:?}", r),
        }
    };
    if draw(2) == 0 {
        let mut i = 0;
        while let Some(mut f) = next(&mut mp).unwrap_or_else(|e| vio!("C11/error", "read_entry failed: {}", e)) {
            check!(i < n, "C11/extra", "extra field");
            let want = &form.fields[i].data;
            buffer_more(&mut f);
            let style = draw(4);
            let r = save_field(&mut f.data, &l, style, i);
            let (d, reason) = match r {
                SaveResult::Full(d) => (d, None),
                SaveResult::Partial(d, r) => (d, Some(r)),
                SaveResult::Error(e) => vio!("C11/error", "saving failed: {}", e),
            };
            judge(want, l.pol, &d, reason.as_ref(), &mut || Some(rest(&mut f.data, &h)));
            if l.pol == Pol::Force && force_may_fail(want, &l) {
                check!(matches!(reason, Some(PartialReason::Utf8Error(_))), "C11/forced", "invalid UTF-8 within the threshold gave {:?} with forced text", reason);
            }
            i += 1;
        }
        check!(i == n, "C11/early-end", "only {} of {} fields", i, n);
    } else {
        let how = draw_how();
        let mut res = save(&mut mp, &l, &how);
        let mut pos = 0usize;
        let mut first = 0usize;
        for round in 0.. {
            check!(round <= n + 1, "C11/endless", "{} resumptions for {} fields", round, n);
            let (full, en, mut part, reason) = match res {
                SaveResult::Full(en) => (true, en, None, None),
                SaveResult::Partial(p, r) => (false, p.entries, p.partial, Some(r)),
                SaveResult::Error(e) => vio!("C11/error", "the save failed: {}", e),
            };
            let cnt = en.fields_count() as usize;
            check!(pos + cnt <= n && (!full || pos + cnt == n), "C11/count", "{} entries after {} of {}", cnt, pos, n);
            for (name, v) in &en.fields {
                let want: Vec<usize> = (pos..pos + cnt).filter(|&i| form.fields[i].name == **name).collect();
                check!(want.len() == v.len(), "C11/names", "{} entries named {:?}", v.len(), name);
                for (f, &i) in v.iter().zip(&want) {
                    let pol = if is_text(&form.fields[i]) { l.pol } else { Pol::Ignore };
                    judge(&form.fields[i].data, pol, &f.data, None, &mut || None);
                }
            }
            pos += cnt;
            if full {
                break;
            }
            let Some(ps) = part.as_mut() else { vio!("C11/partial", "no partial field") };
            let pol = if is_text(&form.fields[pos]) { l.pol } else { Pol::Ignore };
            let Some(d) = ps.dest.take() else { vio!("C11/partial", "no partial data with {:?}", reason) };
            let MultipartField { data, .. } = &mut ps.source;
            judge(&form.fields[pos].data, pol, &d, reason.as_ref(), &mut || Some(rest(data, &h)));
            pos += 1;
            first = pos;
            res = with_lim(mp.save(), &l).count_limit(l.c).with_entries(Entries::new(SaveDir::Perm(tmp().join("more"))));
        }
        let _ = first;
    }
    no_escapes("C11");
}

// ---- C12 --------------------------------------------------------------------------------------

pub fn c12(_: &Arc<Ctx>) {
    if special() {
        return giant("C12/giant", false);
    }
    let (form, e, mut mp, h) = setup(&Opts { max_fields: 3, max_len: 24_000, ..Opts::default() });
    let n = form.fields.len();
    if chance(1, 2) {
        let k = 1 + draw(3);
        for _ in 0..k {
            let f = SrcFault { pos: draw_pos(e.bytes.len(), &e.marks), kind: pick(KINDS), left: 1 + draw(2) };
            with_src(&h, |s| s.faults.push(f));
        }
    }
    if chance(1, 3) {
        with_src(&h, |s| s.eintr = 4);
    }
    let mut i = 0;
    let mut tries = 0;
    sample(|| format!("fields {} in {} bytes", describe(&form.fields), e.bytes.len()));
    loop {
        tries += 1;
        if tries > 200 {
            with_src(&h, |s| s.heal());
        }
        check!(tries < 400, "C12/stuck", "no progress");
        let mut f = match next(&mut mp) {
            Ok(Some(f)) => f,
            Ok(None) => {
                check!(i == n, "C12/early-end", "only {} of {} fields", i, n);
                break;
            }
            // the reader's own errors are C04's business
            Err(_) => continue,
        };
        check!(i < n, "C12/extra", "extra field");
        let want = &form.fields[i].data;
        buffer_more(&mut f);
        let mut pos = 0usize;
        let mut rounds = 0;
        loop {
            rounds += 1;
            check!(rounds < 300, "C12/endless", "copying field {} does not finish", i);
            if rounds > 30 {
                with_src(&h, |s| s.heal());
            }
            let (w, k) = sink();
            {
                let soft = &mut *lk(&k);
                soft.draw_soft();
                if rounds < 20 && draw(3) == 0 {
                    let at = match draw(3) {
                        0 => 0,
                        1 => draw(20) as usize,
                        _ => draw((want.len() - pos) as u32 + 2) as usize,
                    };
                    let bad = if draw(4) == 0 { WBad::Zero } else { WBad::Err(pick(&KINDS[1..])) };
                    soft.fail = Some((at, bad, u32::MAX));
                }
            }
            let lim = match draw(4) {
                0 | 1 => None,
                2 if draw(3) == 0 => Some(draw(3) as u64),
                2 => Some(draw(3000) as u64),
                _ => Some(((want.len() - pos) as u64 + draw(3) as u64).saturating_sub(1)),
            };
            let e0 = with_src(&h, |s| {
                s.last_err = None;
                s.errors
            });
            let r = f.data.save().size_limit(lim).write_to(w);
            let (got, fails, bad) = {
                let k = lk(&k);
                (k.buf.clone(), k.fails, k.fail)
            };
            let src_err = with_src(&h, |s| if s.errors > e0 { s.last_err } else { None });
            check!(pos + got.len() <= want.len() && got[..] == want[pos..pos + got.len()], "C12/data", "field {} from {}: {}", i, pos, diff(&got, &want[pos..]));
            let left = want.len() - pos - got.len();
            pos += got.len();
            let mut stop = false;
            match r {
                SaveResult::Full(c) => {
                    check!(c == got.len() as u64, "C12/count", "{} bytes reported, {} accepted by the writer", c, got.len());
                    check!(left == 0, "C12/short", "full success with {} bytes left", left);
                    check!(fails == 0, "C12/hidden", "full success although the writer failed");
                    stop = true;
                }
                SaveResult::Partial(c, PartialReason::SizeLimit) => {
                    check!(c == got.len() as u64, "C12/count", "{} bytes reported, {} accepted by the writer", c, got.len());
                    check!(Some(c) == lim && left > 0, "C12/limit", "stopped after {} bytes ({} left) with limit {:?}", c, left, lim);
                }
                SaveResult::Partial(c, PartialReason::IoError(er)) => {
                    check!(c == got.len() as u64, "C12/count", "{} bytes reported, {} accepted by the writer", c, got.len());
                    check_err(&er, fails, bad, src_err);
                }
                SaveResult::Partial(_, r) => vio!("C12/reason", "stopped with {:?}", r),
                SaveResult::Error(er) => {
                    check!(got.is_empty(), "C12/count", "an error at the start although {} bytes were accepted", got.len());
                    check_err(&er, fails, bad, src_err);
                }
            }
            if stop {
                break;
            }
            if draw(4) == 0 {
                // the rest by hand
                let mut tail = Vec::new();
                let mut b = [0u8; 999];
                let mut t = 0;
                loop {
                    match f.data.read(&mut b) {
                        Ok(0) => break,
                        Ok(c) => tail.extend_from_slice(&b[..c]),
                        Err(_) => {
                            t += 1;
                            check!(t < 300, "C12/stuck", "the rest of the field cannot be read");
                            if t > 30 {
                                with_src(&h, |s| s.heal());
                            }
                        }
                    }
                }
                check!(tail[..] == want[pos..], "C12/lost", "{} bytes copied and {} left of {}", pos, tail.len(), want.len());
                break;
            }
        }
        i += 1;
    }
}

fn check_err(e: &std::io::Error, fails: u32, bad: Option<(usize, WBad, u32)>, src: Option<ErrorKind>) {
    probe(if fails > 0 { "writer-failed" } else { "source-failed" });
    let want = if fails > 0 {
        match bad.unwrap().1 {
            WBad::Zero => ErrorKind::WriteZero,
            WBad::Err(k) => k,
        }
    } else {
        match src {
            Some(k) => k,
            None => vio!("C12/invented", "the copy failed with {:?} although neither side did", e),
        }
    };
    check!(e.kind() == want, "C12/kind", "the failure was {:?} but {:?} was reported", want, e);
    check!(e.kind() != ErrorKind::Interrupted, "C12/interrupted", "an interruption was not retried");
}

// ---- C21 --------------------------------------------------------------------------------------

pub fn c21(_: &Arc<Ctx>) {
    let (form, e, mut mp, h) = setup(&Opts { max_fields: 4, max_len: 12_000, ..Opts::default() });
    let n = form.fields.len();
    // what was there before has to stay
    unarmed(|| {
        std::fs::create_dir_all(tmp().join("multipart-rs-other")).unwrap();
        std::fs::write(tmp().join("multipart-rs-other/file"), b"not ours").unwrap();
        std::fs::write(tmp().join("loose"), b"not ours either").unwrap();
    });
    if draw(2) == 1 {
        unarmed(|| std::fs::create_dir(tmp().join("nest")).unwrap());
    }
    let before = tree(&up());
    let l = Lim {
        m: pick(&[0u64, 0, 16, 10_240]),
        s: pick(&[None, None, Some(100), Some(2000)]),
        c: pick(&[None, None, Some(0), Some(1), Some(n as u32)]),
        pol: pick(&[Pol::Default, Pol::Force, Pol::Ignore]),
    };
    let how = match draw(3) {
        0 => How::Temp,
        1 => How::Prefix,
        _ => How::TempDir,
    };
    match draw(7) {
        0 => {}
        1 | 2 => {
            let f = SrcFault { pos: draw_pos(e.bytes.len(), &e.marks), kind: pick(&KINDS[1..]), left: 1 };
            with_src(&h, |s| s.faults.push(f));
        }
        3 | 4 => {
            let p = draw_pos(e.bytes.len(), &e.marks);
            with_src(&h, |s| s.panic_at = Some(p));
        }
        5 => {
            let c = draw_pos(e.bytes.len(), &e.marks);
            with_src(&h, |s| s.stop = c);
            fault("source:cut");
        }
        _ => hard_disk(e.bytes.len() as u64),
    }
    sample(|| format!("fields {}, {:?}, {:?}", describe(&form.fields), l, how));
    let gone = |when: &str| {
        let now = tree(&up());
        for p in now.keys() {
            check!(before.contains_key(p), "C21/left", "{:?} is left {}", rel(p), when);
        }
        check!(now == before, "C21/other", "something else was removed or changed {}", when);
    };
    let mpr = &mut mp;
    let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let m = mpr;
        save(m, &l, &how)
    }));
    let res = match caught {
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p);
            }
            probe("panic-in-save");
            check!(with_src(&h, |s| s.panic_at.is_some()), "C21/panic", "the save panicked: {}", crate::runner::last_panic());
            gone("after a panic in the save");
            return;
        }
        Ok(r) => r,
    };
    with(|s| s.fs.heal());
    let en: Entries = match res {
        SaveResult::Error(_) => {
            probe("error");
            gone("after a save that failed at its start");
            return;
        }
        SaveResult::Full(en) => {
            probe("full");
            en
        }
        SaveResult::Partial(p, r) => {
            probe("partial");
            match draw(5) {
                0 => {
                    drop(p);
                    gone("after the partial result was dropped");
                    return;
                }
                1 => p.keep_partial(),
                2 => p.into(),
                3 => match SaveResult::Partial(p, r).into_result_strict() {
                    Ok(en) => en,
                    Err(_) => {
                        gone("after into_result_strict()");
                        return;
                    }
                },
                _ => match SaveResult::Partial(p, r).into_entries() {
                    Some(en) => en,
                    None => vio!("C21/entries", "into_entries() is None for a partial result"),
                },
            }
        }
    };
    // readable while the result lives
    let mut contents: Vec<(PathBuf, Vec<u8>)> = Vec::new();
    for f in en.fields.values().flatten() {
        let d = read_back("C21", &f.data);
        check!(d.len() as u64 == f.data.size(), "C21/size", "size() is {} for {} bytes", f.data.size(), d.len());
        if let SavedData::File(p, _) = &f.data {
            contents.push((p.clone(), d));
        }
    }
    let dir = en.save_dir.as_path().to_path_buf();
    check!(en.save_dir.is_temporary() && unarmed(|| dir.is_dir()), "C21/gone", "the save directory is gone while the result lives");
    let there = |when: &str| {
        let now = tree(&up());
        check!(now.contains_key(&dir), "C21/vanished", "the permanent directory is gone {}", when);
        for (p, d) in &contents {
            check!(now.get(p).map_or(false, |c| c.as_ref() == Some(d)), "C21/vanished", "a saved file changed or disappeared {}", when);
        }
        for (p, c) in &before {
            check!(now.get(p) == Some(c), "C21/other", "something else changed {}", when);
        }
        for p in now.keys() {
            check!(before.contains_key(p) || p.starts_with(&dir), "C21/left", "{:?} is left {}", rel(p), when);
        }
    };
    let delete = |en: Entries| {
        // deleting may fail as well
        let broken = draw(3) == 2;
        if broken {
            with(|s| {
                let n = s.fs.n_remove + 1 + s.draw(3);
                let e = *[libc::EIO, libc::EACCES, libc::EBUSY].get(s.draw(3) as usize).unwrap();
                s.fs.hard.clear();
                s.fs.plan.remove.push((n, e));
            });
        }
        let r = en.save_dir.delete();
        let hit = broken && with(|s| !s.fs.hard.is_empty());
        match r {
            Ok(()) => gone("after delete() reported success"),
            Err(e) => {
                check!(hit, "C21/delete", "delete() failed: {:?}", e);
                let want = with(|s| s.fs.hard[0]);
                check!(e.kind() == std::io::Error::from_raw_os_error(want).kind(), "C21/delete", "delete() failed with {:?}, the disk had failed with {}", e, want);
                probe("delete-failed");
                let now = tree(&up());
                for (p, c) in &before {
                    check!(now.get(p) == Some(c), "C21/other", "something else changed by delete()");
                }
            }
        }
        if hit {
            with(|s| s.fs.heal());
        }
    };
    match draw(6) {
        0 | 1 => {
            drop(en);
            gone("after the result was dropped");
        }
        2 => {
            let mut en = en;
            en.save_dir.keep();
            check!(!en.save_dir.is_temporary() && en.save_dir.as_path() == dir, "C21/keep", "keep() did not make {:?} permanent", rel(&dir));
            if draw(2) == 0 {
                en.save_dir.keep();
            }
            there("after keep()");
            if draw(2) == 0 {
                drop(en);
                there("after keep() and dropping the result");
            } else {
                delete(en);
            }
            probe("kept");
        }
        3 => {
            let p = en.save_dir.into_path();
            check!(p == dir, "C21/into-path", "into_path() is {:?}", rel(&p));
            there("after into_path()");
            probe("into-path");
        }
        4 => {
            delete(en);
            probe("deleted");
        }
        _ => {
            // the directory moves on into a second save, which is then dropped
            let body = b"--Z\r\nContent-Disposition: form-data; name=\"z\"\r\n\r\nmore data\r\n--Z--\r\n".to_vec();
            let (r, _) = src(Arc::new(body), Seg::Whole);
            let mut m2 = Multipart::with_body(r, "Z");
            match m2.save().memory_threshold(0).count_limit(None).with_entries(en) {
                SaveResult::Full(en) => {
                    check!(en.save_dir.as_path() == dir && en.fields.get("z").map_or(false, |v| v.len() >= 1), "C21/reuse", "entries lost when reused");
                    for (p, d) in &contents {
                        check!(unarmed(|| std::fs::read(p).ok()).as_ref() == Some(d), "C21/reuse", "a file changed when the entries were reused");
                    }
                    drop(en);
                }
                SaveResult::Partial(_, r) => vio!("C21/reuse", "a second save stopped with {:?}", r),
                SaveResult::Error(e) => vio!("C21/reuse", "a second save failed: {}", e),
            }
            gone("after a second save into it was dropped");
            probe("reused");
        }
    }
    no_escapes("C21");
}
