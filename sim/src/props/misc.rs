//! C24: labels of files. C25: the mock transport. C26: taking results apart.
use super::client::{add_one, cfields, check_body, legal_boundary, same_fields, transport, wants, write_one, CField, Kind, TOKEN};
use super::read::saved_bytes;
use super::save::{draw_how, draw_m, draw_pol, files, hard_disk, save_mode, setup, soft_disk, tmp, with_lim, Lim};
use super::*;
use crate::gen::{self, Field, Opts};
use crate::io::*;
use crate::sys::{FsPlan, OutPlan};
use crate::{check, vio};
use multipart::client::{lazy, Multipart as ClientMultipart};
use multipart::mock;
use multipart::server::save::{Entries, EntriesSaveResult, PartialReason, SaveResult, SavedData};
use multipart::server::{Multipart, ReadEntryResult};
use std::io::{BufRead, ErrorKind, IoSlice, Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

// ---- C24 --------------------------------------------------------------------------------------

const TYPES: &[(&str, &str)] = &[
    ("txt", "text/plain"),
    ("TXT", "text/plain"),
    ("html", "text/html"),
    ("Htm", "text/html"),
    ("png", "image/png"),
    ("jpg", "image/jpeg"),
    ("JPEG", "image/jpeg"),
    ("gif", "image/gif"),
    ("json", "application/json"),
    ("pdf", "application/pdf"),
    ("tar", "application/x-tar"),
    ("csv", "text/csv"),
    ("css", "text/css"),
    ("zip", "application/zip"),
    ("xyzzy", "application/octet-stream"),
    ("t x t", "application/octet-stream"),
    ("\u{e9}", "application/octet-stream"),
    ("txt~", "application/octet-stream"),
    ("png_", "application/octet-stream"),
    ("txt.000", "application/octet-stream"),
    ("mp3", "audio/mpeg"),
    ("MP4", "video/mp4"),
    ("svg", "image/svg+xml"),
    ("xml", "text/xml"),
    ("doc", "application/msword"),
    ("webp", "image/webp"),
    ("bin", "application/octet-stream"),
    // several are registered: the first is the one to use
    ("md", "text/markdown"),
    ("TTF", "font/ttf"),
    ("7z", "application/x-7z-compressed"),
    ("webmanifest", "application/manifest+json"),
    ("disposition-notification", "message/disposition-notification"),
    ("js", "text/javascript"),
    ("ico", "image/x-icon"),
    ("123", "application/vnd.lotus-1-2-3"),
];
const STEMS: &[&str] = &["file", "a.b", "archive.tar.gz", ".hidden", "with space", "\u{4e16}\u{754c}", "x;y", "UPPER", "-", "a.txt", "...", " lead", "\u{3000}wide", "in  side", "a=b", "%41", "caf\u{65}\u{301}"];
const DIRS: &[&[u8]] = &[b"d", b"dir.png", b"deep/er.txt/down", b"sp ace", b"\xc3\xa9t\xc3\xa9", b"latin \xe9t\xe9", b"\xff/x.y", b"back\\slash"];

struct Back(PathBuf);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

pub fn c24(_: &Arc<Ctx>) {
    let mut _back = None;
    let n = 1 + draw(3) as usize;
    let mut want = Vec::new();
    let mut paths = Vec::new();
    for i in 0..n {
        let dir = tmp().join(format!("{}", i)).join(std::ffi::OsStr::from_bytes(pick(DIRS)));
        let (file, ctype): (std::ffi::OsString, &str) = match draw(8) {
            0 => (pick(&["noextension", "Makefile", ".bashrc", "trailing.", "txt", ".png", "space.txt ", " ", "x. txt", "dot.txt.", "a.png\u{a0}"]).into(), "application/octet-stream"),
            1 => {
                // not UTF-8: there is no name to send
                let mut b = b"bad\xff\xfe".to_vec();
                b.extend_from_slice(b".txt");
                (std::ffi::OsStr::from_bytes(&b).to_os_string(), "text/plain")
            }
            _ => {
                let (e, t) = pick(TYPES);
                (format!("{}.{}", pick(STEMS), e).into(), t)
            }
        };
        let path = dir.join(&file);
        let data = gen::data("0123456789abcdef", &Opts { max_len: 4000, ..Opts::default() });
        // the name counts, not what it links to
        let link = draw(8) == 7;
        unarmed(|| {
            std::fs::create_dir_all(&dir).unwrap();
            if link {
                let to = tmp().join(format!("target{}.gif", i));
                std::fs::write(&to, &data).unwrap();
                std::os::unix::fs::symlink(&to, &path).unwrap();
            } else {
                std::fs::write(&path, &data).unwrap();
            }
        });
        // a path that takes a detour
        let path = match draw(4) {
            2 if n == 1 => {
                _back = Some(Back(std::env::current_dir().unwrap()));
                std::env::set_current_dir(&dir).unwrap();
                probe("relative");
                PathBuf::from(&file)
            }
            0 => dir.join(".").join(&file),
            1 => dir.join("..").join(dir.file_name().unwrap()).join(&file),
            _ => path,
        };
        note(|| format!("{:?} is {}", path, ctype));
        want.push(Field { name: gen::name(i), filename: file.to_str().map(|s| s.to_string()), ctype: Some(ctype.to_string()), data });
        paths.push(path);
    }
    soft_files();
    let lazy_ = draw(2) == 0;
    sample(|| format!("{} {:?}", if lazy_ { "lazy" } else { "streaming" }, want.iter().map(|w| (w.filename.clone(), w.ctype.clone())).collect::<Vec<_>>()));
    let tr = transport();
    lk(&tr.out).draw_soft();
    let r = if lazy_ {
        let owned = draw(2) == 0;
        // either all paths are borrowed or all are owned: their lifetimes are one
        if owned {
            let mut mp = lazy::Multipart::new();
            for (w, p) in want.iter().zip(&paths) {
                match (draw(3), p.to_str()) {
                    (0, Some(s)) => mp.add_file(w.name.clone(), s.to_string()),
                    _ => mp.add_file(w.name.clone(), p.clone()),
                };
            }
            mp.send(tr.req()).map_err(|e| format!("{:?}", e))
        } else {
            let mut mp = lazy::Multipart::new();
            for (w, p) in want.iter().zip(&paths) {
                match (draw(4), p.to_str()) {
                    (0, Some(s)) => mp.add_file(w.name.as_str(), s),
                    (1, Some(_)) => mp.add_file(w.name.as_str(), std::borrow::Cow::Borrowed(p.as_path())),
                    _ => mp.add_file(w.name.as_str(), p.as_path()),
                };
            }
            let r = mp.send(tr.req()).map_err(|e| format!("{:?}", e));
            r
        }
    } else {
        let mut mp = ClientMultipart::from_request(tr.req()).unwrap_or_else(|e| vio!("C24/error", "{:?}", e));
        for (w, p) in want.iter().zip(&paths) {
            if let Err(e) = mp.write_file(&w.name, p) {
                vio!("C24/error", "{:?}", e);
            }
        }
        mp.send().map_err(|e| format!("{:?}", e))
    };
    check!(r == Ok(TOKEN), "C24/error", "sending failed: {:?}", r);
    check_body("C24/label", &tr.body(), &tr.boundary().unwrap(), &want, !lazy_);
    probe(if lazy_ { "lazy" } else { "streaming" });
}

fn soft_files() {
    let p = FsPlan { read_short: pick(&[0u32, 0, 2, 4]), read_eintr: pick(&[0u32, 0, 3]), ..FsPlan::default() };
    with(|s| s.fs.plan = p);
}

// ---- C25 --------------------------------------------------------------------------------------

fn write_all<S: multipart::client::HttpStream>(mp: &mut ClientMultipart<S>, fs: &mut [CField])
where
    S::Error: std::fmt::Debug,
{
    for f in fs.iter_mut() {
        if let Err(e) = write_one(mp, f) {
            vio!("C25/error", "writing to the mock failed: {:?}", e);
        }
    }
}

fn read_mock(sr: mock::ServerRequest, want: &[Field], ordered: bool) {
    let mut mp = match Multipart::from_request(sr) {
        Ok(m) => m,
        Err(_) => vio!("C25/refused", "the mock request is not taken for multipart"),
    };
    let mut got = Vec::new();
    let style = draw(3);
    loop {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let mut d = Vec::new();
                let r = match style {
                    0 => f.data.read_to_end(&mut d).map(|_| ()),
                    1 => loop {
                        let mut b = vec![0; 1 + draw(2000) as usize];
                        let r = f.data.read(&mut b);
                        ev("read", *r.as_ref().unwrap_or(&0) as u64, b.len() as u64);
                        match r {
                            Ok(0) => break Ok(()),
                            Ok(n) => d.extend_from_slice(&b[..n]),
                            Err(e) => break Err(e),
                        }
                        if d.len() > 400_000 {
                            vio!("C25/endless", "more data than was sent");
                        }
                    },
                    _ => loop {
                        let n = match f.data.fill_buf() {
                            Ok(b) if b.is_empty() => break Ok(()),
                            Ok(b) => {
                                ev("fill", b.len() as u64, 0);
                                d.extend_from_slice(b);
                                b.len()
                            }
                            Err(e) => break Err(e),
                        };
                        f.data.consume(n);
                    },
                };
                if let Err(e) = r {
                    vio!("C25/read", "reading the mock request failed: {}", e);
                }
                got.push(Field {
                    name: f.headers.name.to_string(),
                    filename: f.headers.filename.clone(),
                    ctype: f.headers.content_type.as_ref().map(|c| c.to_string()),
                    data: d,
                });
            }
            Ok(None) => break,
            Err(e) => vio!("C25/read", "reading the mock request failed: {}", e),
        }
    }
    same_fields("C25/fields", &got, want, ordered);
}

pub fn c25(_: &Arc<Ctx>) {
    nontrivial();
    if draw(4) == 0 {
        // the buffer and the request as plain writer and reader
        let pre = gen::data("x", &Opts { max_len: 500, ..Opts::default() });
        let data = gen::data("x", &Opts { max_len: 20_000, ..Opts::default() });
        let len = pick(&[None, Some(0u64), Some(77)]);
        let mut hb = mock::HttpBuffer::with_buf(pre.clone(), "bound".into(), len);
        let mut p = 0;
        let mut calls = 0;
        while p < data.len() {
            calls += 1;
            let e = if calls > 300 { data.len() } else { (p + 1 + draw(5000) as usize).min(data.len()) };
            let r = if draw(4) == 3 {
                let m = p + (e - p) / 2;
                hb.write_vectored(&[IoSlice::new(&[]), IoSlice::new(&data[p..m]), IoSlice::new(&data[m..e])])
            } else {
                hb.write(&data[p..e])
            };
            match r {
                Ok(n) => {
                    ev("write", n as u64, (e - p) as u64);
                    check!(n > 0 && n <= e - p, "C25/write", "{} of {} bytes accepted", n, e - p);
                    p += n;
                }
                Err(er) => vio!("C25/write", "{}", er),
            }
        }
        check!(hb.write(&[]).ok() == Some(0) && hb.flush().is_ok(), "C25/write", "writing nothing");
        let want = [&pre[..], &data].concat();
        check!(hb.buf == want, "C25/buffer", "the buffer: {}", diff(&hb.buf, &want));
        check!(hb.content_len == len && hb.boundary == "bound", "C25/meta", "{:?} {:?}", hb.content_len, hb.boundary);
        for round in 0..2 {
            let from_buffer = draw(2) == 0;
            let mut sr = if from_buffer { hb.for_server() } else { mock::ServerRequest::new(&hb.buf, &hb.boundary) };
            check!(sr.boundary == "bound", "C25/meta", "boundary {:?}", sr.boundary);
            let has = if from_buffer { len } else { None };
            check!(sr.content_len == has, "C25/meta", "content_len is {:?}, {:?} was given", sr.content_len, has);
            check!(sr.read(&mut []).ok() == Some(0), "C25/read", "a read into nothing");
            let mut got = Vec::new();
            let mut calls = 0;
            let big = pick(&[4000u32, 4000, 100, 30_000]);
            loop {
                calls += 1;
                let m = if calls > 300 { 8192 } else { 1 + draw(big) as usize };
                let how = if draw(3) == 2 { 1 + draw(4) } else { 0 };
                match super::read_some(&mut sr, m, how, &mut got) {
                    Ok(0) => break,
                    Ok(n) => {
                        ev("read", n as u64, m as u64);
                        check!(n <= m, "C25/read", "{} of {}", n, m);
                    }
                    Err(e) => vio!("C25/read", "{}", e),
                }
                check!(got.len() <= want.len(), "C25/read", "more bytes than were written");
            }
            check!(got == want, "C25/read", "round {}: {}", round, diff(&got, &want));
            check!(sr.content_len == has && sr.boundary == "bound", "C25/meta", "after the reading the content length is {:?}, {:?} was given", sr.content_len, has);
        }
        probe("plain");
        return;
    }
    let mut fs = cfields(5, 15_000, pick(&[&[Kind::Text, Kind::Stream, Kind::File][..], &[Kind::Text, Kind::File], &[Kind::Text]]));
    soft_files();
    let mode = draw(3);
    sample(|| format!("mode {}: {} fields", mode, fs.len()));
    let want = wants(&fs);
    let streams = fs.iter().any(|f| f.kind == Kind::Stream);
    let hb = match mode {
        0 => {
            let mut mp = ClientMultipart::from_request(mock::ClientRequest::default()).unwrap_or_else(|e| vio!("C25/error", "{:?}", e));
            write_all(&mut mp, &mut fs);
            mp.send().unwrap_or_else(|e| vio!("C25/error", "{:?}", e))
        }
        1 => {
            let mut mp = ClientMultipart::from_request_sized(mock::ClientRequest::default()).unwrap_or_else(|e| vio!("C25/error", "{:?}", e));
            write_all(&mut mp, &mut fs);
            mp.send().unwrap_or_else(|e| vio!("C25/error", "{:?}", e))
        }
        _ => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
            }
            mp.send(mock::ClientRequest::default()).unwrap_or_else(|e| vio!("C25/error", "{:?}", e))
        }
    };
    legal_boundary("C25/boundary", &hb.boundary);
    let exp = match mode {
        0 => None,
        1 => Some(hb.buf.len() as u64),
        _ if streams => None,
        _ => Some(hb.buf.len() as u64),
    };
    check!(hb.content_len == exp, "C25/length", "content_len is {:?}, {:?} expected", hb.content_len, exp);
    check_body("C25/body", &hb.buf, &hb.boundary, &want, mode != 2);
    for _ in 0..1 + draw(2) {
        let sr = hb.for_server();
        check!(sr.content_len == hb.content_len && sr.boundary == hb.boundary && sr.data == &hb.buf[..], "C25/for-server", "the server's request differs");
        read_mock(sr, &want, mode != 2);
    }
    probe(["streaming", "sized", "lazy"][mode as usize]);
}

// ---- C26 --------------------------------------------------------------------------------------

#[derive(Debug, PartialEq, Clone)]
struct Item {
    name: String,
    filename: Option<String>,
    ctype: Option<String>,
    data: Vec<u8>,
    path: Option<PathBuf>,
}

fn items(en: &Entries) -> Vec<Item> {
    let mut v = Vec::new();
    let mut names: Vec<_> = en.fields.keys().cloned().collect();
    names.sort();
    for n in names {
        for f in &en.fields[&n] {
            check!(*f.headers.name == *n, "C26/names", "{:?} filed under {:?}", f.headers.name, n);
            v.push(Item {
                name: n.to_string(),
                filename: f.headers.filename.clone(),
                ctype: f.headers.content_type.as_ref().map(|c| c.to_string()),
                data: saved_bytes("C26", &f.data),
                path: match &f.data {
                    SavedData::File(p, _) => Some(p.clone()),
                    _ => None,
                },
            });
        }
    }
    v
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum What {
    Full,
    Io(ErrorKind),
    Count,
    Size,
    Utf8,
    Error(ErrorKind),
}

fn what_reason(r: &PartialReason) -> What {
    match r {
        PartialReason::IoError(e) => What::Io(e.kind()),
        PartialReason::CountLimit => What::Count,
        PartialReason::SizeLimit => What::Size,
        PartialReason::Utf8Error(_) => What::Utf8,
    }
}

fn what<M: multipart::server::ReadEntry>(r: &EntriesSaveResult<M>) -> What {
    match r {
        SaveResult::Full(_) => What::Full,
        SaveResult::Partial(_, r) => what_reason(r),
        SaveResult::Error(e) => What::Error(e.kind()),
    }
}

pub fn c26(_: &Arc<Ctx>) {
    match draw(6) {
        0 => return c26_entry(),
        1 => return c26_field(),
        _ => {}
    }
    let (form, e, mut mp, h) = setup(&Opts { max_fields: 5, max_len: 9_000, ..Opts::default() });
    let n = form.fields.len() as u32;
    let l = Lim {
        m: draw_m(&form),
        s: pick(&[None, None, Some(10), Some(500), Some(3000)]),
        c: if draw(3) == 0 { Some(draw(n + 1)) } else { None },
        pol: draw_pol(),
    };
    match draw(5) {
        0 => {
            let f = SrcFault { pos: draw_pos(e.bytes.len(), &e.marks), kind: pick(&super::read::KINDS[1..]), left: 1 };
            with_src(&h, |s| s.faults.push(f));
        }
        1 => hard_disk(e.bytes.len() as u64),
        2 => {
            let c = draw_pos(e.bytes.len(), &e.marks);
            with_src(&h, |s| s.stop = c);
        }
        _ => soft_disk(),
    }
    let how = draw_how();
    let mode = pick(&[None, None, Some(0o600), Some(0o400)]);
    sample(|| format!("fields {}, {:?}, {:?}, file mode {:?}", describe(&form.fields), l, how, mode));
    let res = save_mode(&mut mp, &l, &how, mode);
    with(|s| s.fs.heal());
    with_src(&h, |s| s.heal());
    let w = what(&res);
    ev("what", (w == What::Full) as u64, 0);
    if let Some(m) = mode {
        use std::os::unix::fs::PermissionsExt;
        for p in files(&tmp()) {
            let got = unarmed(|| std::fs::metadata(&p)).map_or(0, |x| x.permissions().mode() & 0o777);
            check!(got == m, "C26/opened", "{} was created with mode {:o}, {:o} was asked for", p.display(), got, m);
            probe("opened-with-mode");
        }
    }
    let (before, partial) = match &res {
        SaveResult::Full(en) => (items(en), None),
        SaveResult::Partial(p, _) => {
            let d = p.partial.as_ref().and_then(|p| {
                p.dest.as_ref().map(|d| Item {
                    name: p.source.headers.name.to_string(),
                    filename: p.source.headers.filename.clone(),
                    ctype: p.source.headers.content_type.as_ref().map(|c| c.to_string()),
                    data: saved_bytes("C26", d),
                    path: match d {
                        SavedData::File(p, _) => Some(p.clone()),
                        _ => None,
                    },
                })
            });
            (items(&p.entries), d)
        }
        SaveResult::Error(_) => (vec![], None),
    };
    let dir = match &res {
        SaveResult::Full(en) => Some(en.save_dir.as_path().to_path_buf()),
        SaveResult::Partial(p, _) => Some(p.entries.save_dir.as_path().to_path_buf()),
        _ => None,
    };
    let temp = !matches!(how, super::save::How::Dir(_) | super::save::How::Entries(_));
    let how_apart = draw(8);
    note(|| format!("{:?}, taken apart in way {}", w, how_apart));
    let mut kept = before.clone();
    let en: Option<Entries> = match how_apart {
        0 => res.into_entries(),
        1 => res.okish(),
        2 => {
            let (en, er) = res.into_opt_both();
            match (w, er) {
                (What::Io(k), Some(e)) | (What::Error(k), Some(e)) => check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind()),
                (What::Full, None) | (What::Count, None) | (What::Size, None) | (What::Utf8, None) => {}
                (w, e) => vio!("C26/error-lost", "into_opt_both() turned {:?} into error {:?}", w, e),
            }
            en
        }
        3 => match (res.into_result(), w) {
            (Err(e), What::Error(k)) => {
                check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind());
                None
            }
            (Ok(en), w) if !matches!(w, What::Error(_)) => Some(en),
            (r, w) => vio!("C26/result", "into_result() of {:?} is {}", w, if r.is_ok() { "Ok" } else { "an error" }),
        },
        4 => match (res.into_result_strict(), w) {
            (Err(e), What::Error(k)) | (Err(e), What::Io(k)) => {
                check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind());
                if temp {
                    check!(dir.as_ref().map_or(true, |d| !unarmed(|| d.exists())), "C26/left", "the temporary directory is left");
                }
                return probe("strict-error");
            }
            (Ok(en), What::Full) => Some(en),
            // the documentation calls for an error, without saying which
            (Ok(en), What::Size) | (Ok(en), What::Count) | (Ok(en), What::Utf8) => Some(en),
            (Err(_), What::Size) | (Err(_), What::Count) | (Err(_), What::Utf8) => return,
            (r, w) => vio!("C26/strict", "into_result_strict() of {:?} is {}", w, if r.is_ok() { "Ok" } else { "an error" }),
        },
        5 => {
            let mut calls = 0;
            let m = res.map(|en| {
                calls += 1;
                (en, 77)
            });
            let (w2, en) = match m {
                SaveResult::Full(x) => (What::Full, Some(x)),
                SaveResult::Partial(x, r) => (what_reason(&r), Some(x)),
                SaveResult::Error(e) => (What::Error(e.kind()), None),
            };
            check!(w2 == w, "C26/map", "map() turned {:?} into {:?}", w, w2);
            check!(calls == en.is_some() as u32, "C26/map", "the closure of map() ran {} times", calls);
            en.map(|x| x.0)
        }
        6 => match res {
            SaveResult::Partial(p, r) => {
                if let What::Io(k) = w {
                    let e = if draw(2) == 0 { r.unwrap_err() } else { r.expect_err("no") };
                    check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind());
                }
                if let Some(d) = partial {
                    // after the others of its name
                    let at = kept.iter().position(|i| i.name > d.name).unwrap_or(kept.len());
                    kept.insert(at, d);
                    probe("kept-partial");
                }
                Some(p.keep_partial())
            }
            SaveResult::Full(en) => Some(en),
            SaveResult::Error(_) => None,
        },
        _ => match res {
            SaveResult::Partial(p, _) => Some(p.into()),
            SaveResult::Full(en) => Some(en),
            SaveResult::Error(_) => None,
        },
    };
    check!(en.is_some() == !matches!(w, What::Error(_)), "C26/entries", "way {} of taking {:?} apart gave {} entries", how_apart, w, if en.is_some() { "" } else { "no" });
    let Some(mut en) = en else { return };
    probe("entries");
    let after = items(&en);
    check!(after == kept, "C26/changed", "{} entries before, {} after way {}", kept.len(), after.len(), how_apart);
    check!(Some(en.save_dir.as_path()) == dir.as_deref() && en.save_dir.is_temporary() == temp, "C26/dir", "the directory changed");
    check!(en.fields_count() as usize == kept.len(), "C26/fields-count", "fields_count() is {} of {}", en.fields_count(), kept.len());
    check!(en.is_empty() == kept.is_empty() && en.recount_fields() as usize == kept.len(), "C26/fields-count", "is_empty() {} recount {}", en.is_empty(), en.recount_fields());
    debug_output(&en);
    if draw(6) == 5 {
        // taken out by the application
        let gone = std::mem::take(&mut en.fields);
        check!(en.is_empty() && en.recount_fields() == 0 && en.fields_count() == 0, "C26/fields-count", "not empty although all of its {} names are gone", gone.len());
        en.fields = gone;
        check!(en.is_empty() == kept.is_empty() && en.recount_fields() as usize == kept.len(), "C26/fields-count", "is_empty() {} with {} entries", en.is_empty(), kept.len());
    }
    match draw(4) {
        0 => {
            let p = en.save_dir.into_path();
            check!(Some(&p) == dir.as_ref(), "C26/into-path", "into_path() is {:?}", p);
            for i in &kept {
                if let Some(f) = &i.path {
                    check!(unarmed(|| std::fs::read(f).ok()).as_ref() == Some(&i.data), "C26/into-path", "a saved file is gone");
                }
            }
        }
        1 => {
            let d: &std::path::Path = en.save_dir.as_ref();
            check!(Some(d) == dir.as_deref(), "C26/dir", "as_ref() differs");
        }
        _ => {}
    }
}

fn put_back(away: &Option<PathBuf>) {
    if let Some(p) = away {
        fault("disk:file-taken");
        unarmed(|| std::fs::rename(p.with_extension("away"), p).unwrap());
    }
}

/// write_debug shows every entry in full, or says why not
fn debug_output(en: &Entries) {
    let mut want = Vec::new();
    for (name, v) in &en.fields {
        want.extend(format!("Field {:?} has {} entries:\n", name, v.len()).bytes());
        for (i, f) in v.iter().enumerate() {
            want.extend(format!("{}: {:?} ({:?}):\n", i, f.headers.filename, f.headers.content_type).bytes());
            want.extend(saved_bytes("C26", &f.data));
        }
    }
    let has_files = en.fields.values().flatten().any(|f| !f.data.is_memory() && f.data.size() > 0);
    let (w, h) = sink();
    lk(&h).draw_soft();
    let mut hard = false;
    let mut away: Option<PathBuf> = None;
    match draw(6) {
        4 if has_files => {
            let f = (1 + draw(2), pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE]));
            with(|s| s.fs.plan.open_read.push(f));
        }
        5 if has_files => {
            // a file was taken away by someone else
            let f: Vec<_> = en.fields.values().flatten().filter_map(|f| if let SavedData::File(p, _) = &f.data { Some(p.clone()) } else { None }).collect();
            let p = &f[draw(f.len() as u32) as usize];
            unarmed(|| std::fs::rename(p, p.with_extension("away")).unwrap());
            away = Some(p.clone());
        }
        0 => {
            let at = draw(want.len() as u32 + 1) as usize;
            lk(&h).fail = Some((at, if draw(4) == 0 { WBad::Zero } else { WBad::Err(pick(&super::read::KINDS[1..])) }, pick(&[u32::MAX, 1])));
            hard = at < want.len();
        }
        1 if has_files => with(|s| s.fs.plan.read.push((1, libc::EIO))),
        _ => soft_files(),
    }
    let n = with(|s| s.fs.hard.len());
    if draw(3) == 0 {
        // to the simulated standard output
        let out = OutPlan { short: pick(&[0u32, 2]), eintr: pick(&[0u32, 3]), ..OutPlan::default() };
        with(|s| s.fs.out = Some(out));
        let r = en.print_debug();
        let bad = with(|s| s.fs.hard.len() > n) || away.is_some();
        put_back(&away);
        let _ = std::io::stdout().lock().flush();
        let got = with(|s| s.fs.out.take()).unwrap_or_default().buf;
        with(|s| s.fs.heal());
        match r {
            Ok(()) => check!(!bad && got == want, "C26/debug", "print_debug: {}", diff(&got, &want)),
            Err(e) => check!(bad, "C26/debug", "print_debug failed without a fault: {}", e),
        }
        return;
    }
    let r = en.write_debug(w);
    let bad = hard || with(|s| s.fs.hard.len() > n) || away.is_some();
    with(|s| s.fs.heal());
    put_back(&away);
    let got = lk(&h).buf.clone();
    match r {
        Ok(()) => {
            check!(!bad, "C26/debug-hidden", "write_debug succeeded although it could not write or read everything");
            check!(got == want, "C26/debug", "write_debug: {}", diff(&got, &want));
            probe("debug");
        }
        Err(e) => {
            check!(bad && e.kind() != ErrorKind::Interrupted, "C26/debug", "write_debug failed without a fault: {}", e);
            check!(want.starts_with(&got), "C26/debug", "write_debug: {}", diff(&got, &want));
        }
    }
}

/// results of reading an entry
fn c26_entry() {
    let form = gen::form(&Opts { max_fields: 4, max_len: 2000, ..Opts::default() });
    let e = gen::encode(&form);
    let (r, h) = seg_src(&e);
    let n = form.fields.len();
    let cut = draw(3) == 0;
    if cut {
        let c = draw(e.close_end as u32) as usize;
        with_src(&h, |s| s.stop = c);
    }
    sample(|| format!("entries of {}, cut {}", describe(&form.fields), cut));
    let mut mp = Multipart::with_body(r, form.boundary.as_str());
    let mut i = 0;
    loop {
        let res = multipart::server::ReadEntry::read_entry_mut(&mut mp);
        let w = match &res {
            ReadEntryResult::Entry(f) => {
                check!(i < n, "C26/extra", "entry {} of {}", i + 1, n);
                check_headers("C26/headers", &f.headers, &form.fields[i]);
                0
            }
            ReadEntryResult::End(_) => {
                check!(i == n && !cut, "C26/end", "end after {} of {}", i, n);
                1
            }
            ReadEntryResult::Error(_, _) => {
                check!(cut, "C26/error", "an error on a complete body");
                2
            }
        };
        let msg = "must not fail";
        match w {
            0 => {
                let f = match draw(5) {
                    0 => res.unwrap(),
                    1 => res.expect(msg),
                    2 => res.unwrap_opt().unwrap_or_else(|| vio!("C26/conversion", "unwrap_opt() of an entry is None")),
                    3 => res.expect_opt(msg).unwrap_or_else(|| vio!("C26/conversion", "expect_opt() of an entry is None")),
                    _ => match res.into_result() {
                        Ok(Some(f)) => f,
                        _ => vio!("C26/conversion", "into_result() lost the entry"),
                    },
                };
                check_headers("C26/headers", &f.headers, &form.fields[i]);
                // on to the next through the field itself
                if draw(3) == 0 {
                    match f.next_entry() {
                        ReadEntryResult::Entry(f) => {
                            i += 1;
                            check!(i < n, "C26/extra", "entry {} of {}", i + 1, n);
                            check_headers("C26/headers", &f.headers, &form.fields[i]);
                        }
                        ReadEntryResult::End(_) => {
                            check!(i + 1 == n && !cut, "C26/end", "end after {} of {}", i + 1, n);
                            return;
                        }
                        ReadEntryResult::Error(_, _) => {
                            check!(cut, "C26/error", "an error on a complete body");
                            return;
                        }
                    }
                } else {
                    let mut f = f;
                    let mut d = Vec::new();
                    if f.data.read_to_end(&mut d).is_ok() {
                        // where the body ends early, the next entry tells
                        check!(d == form.fields[i].data || cut && form.fields[i].data.starts_with(&d), "C26/data", "{}", diff(&d, &form.fields[i].data));
                    } else {
                        check!(cut, "C26/error", "an error on a complete body");
                    }
                }
                i += 1;
            }
            1 => {
                let none = match draw(3) {
                    0 => res.unwrap_opt().is_none(),
                    1 => res.expect_opt(msg).is_none(),
                    _ => matches!(res.into_result(), Ok(None)),
                };
                check!(none, "C26/conversion", "the end became an entry");
                probe("entry-end");
                return;
            }
            _ => {
                let want = match &res {
                    ReadEntryResult::Error(_, e) => e.kind(),
                    _ => unreachable!(),
                };
                match res.into_result() {
                    Err(e) => check!(e.kind() == want, "C26/kind", "{:?} became {:?}", want, e.kind()),
                    _ => vio!("C26/conversion", "into_result() lost the error"),
                }
                probe("entry-error");
                return;
            }
        }
    }
}

/// results of saving one field, and open options
fn c26_field() {
    let form = gen::form(&Opts { max_fields: 1, max_len: 9000, ..Opts::default() });
    if form.fields.is_empty() {
        return;
    }
    let e = gen::encode(&form);
    let (r, h) = seg_src(&e);
    let l = Lim { m: pick(&[0u64, 0, 100]), s: pick(&[None, None, Some(500)]), c: None, pol: draw_pol() };
    let path = tmp().join("out").join("target");
    let old = b"previous contents of the file, to be seen".to_vec();
    let exists = draw(2) == 0;
    if exists {
        unarmed(|| {
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, &old).unwrap();
        });
    }
    soft_disk();
    let calm = draw(4) != 0;
    if !calm {
        let f = SrcFault { pos: draw_pos(e.bytes.len(), &e.marks), kind: pick(&super::read::KINDS[1..]), left: 1 };
        with_src(&h, |s| s.faults.push(f));
    }
    let mode = draw(5);
    sample(|| format!("field of {} bytes, {:?}, open mode {}, existing {}", form.fields[0].data.len(), l, mode, exists));
    let mut mp = Multipart::with_body(r, form.boundary.as_str());
    let mut f = loop {
        match next(&mut mp) {
            Ok(Some(f)) => break f.headers,
            Ok(None) => vio!("C26/end", "no field"),
            Err(_) => {}
        };
    };
    let _ = &mut f;
    drop(f);
    let data = &form.fields[0].data;
    // the field again, as the borrow ended
    let (r, h2) = src(Arc::new(e.bytes.clone()), with_src(&h, |s| s.seg.clone()));
    let fl = with_src(&h, |s| s.faults.clone());
    let mut mp = Multipart::with_body(r, form.boundary.as_str());
    let mut f = match next(&mut mp) {
        Ok(Some(f)) => f,
        _ => vio!("C26/end", "no field"),
    };
    with_src(&h2, |s| s.faults = fl.into_iter().filter(|f| f.pos > s.pos && f.left > 0).collect());
    let mut b = with_lim(f.data.save(), &l);
    b = match mode {
        0 => b,
        // the file is writable whatever the closure says
        1 => b.mod_open_opts(|o| {
            o.write(false);
        }),
        2 => b.mod_open_opts(|o| {
            o.create_new(false).create(true).truncate(true);
        }),
        3 => b.mod_open_opts(|o| {
            o.create_new(false).create(true).append(true);
        }),
        _ => b.mod_open_opts(|o| {
            o.read(true);
        }),
    };
    let res = b.with_path(&path);
    drop(b);
    with(|s| s.fs.heal());
    with_src(&h2, |s| s.heal());
    let (w, d) = match &res {
        SaveResult::Full(d) => (What::Full, Some(d)),
        SaveResult::Partial(d, r) => (what_reason(r), Some(d)),
        SaveResult::Error(e) => (What::Error(e.kind()), None),
    };
    let was = d.map(|d| (d.size(), d.is_memory(), format!("{:?}", d)));
    if let Some(SavedData::File(p, n)) = d {
        check!(*p == path, "C26/path", "saved to {:?}", p);
        check!(!exists || mode == 2 || mode == 3, "C26/overwritten", "an existing file was opened");
        let now = unarmed(|| std::fs::read(p)).unwrap_or_default();
        let mut want = if mode == 3 && exists { old.clone() } else { vec![] };
        want.extend_from_slice(&data[..(*n as usize).min(data.len())]);
        check!(now == want && *n as usize <= data.len(), "C26/opened", "mode {}: {}", mode, diff(&now, &want));
        probe("opened");
    } else if exists {
        check!(unarmed(|| std::fs::read(&path)).ok().as_ref() == Some(&old), "C26/overwritten", "the existing file changed");
    }
    let memory = was.as_ref().map_or(false, |x| x.1);
    if calm && (!exists || mode == 2 || mode == 3) && l.s.map_or(true, |s| s >= data.len() as u64) {
        check!(w == What::Full, "C26/opened", "mode {}: {:?} although nothing failed", mode, w);
    }
    if exists && mode != 2 && mode != 3 && !memory {
        check!(w != What::Full, "C26/overwritten", "success although the file existed");
    }
    match draw(4) {
        0 => {
            let d = res.okish();
            check!(d.as_ref().map(|d| format!("{:?}", d)) == was.map(|x| x.2), "C26/changed", "okish() changed the data");
        }
        1 => {
            let (d, er) = res.into_opt_both();
            check!(d.map(|d| format!("{:?}", d)) == was.map(|x| x.2), "C26/changed", "into_opt_both() changed the data");
            match (w, er) {
                (What::Io(k), Some(e)) | (What::Error(k), Some(e)) => check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind()),
                (What::Io(_), None) | (What::Error(_), None) => vio!("C26/error-lost", "into_opt_both() lost the error"),
                (_, Some(e)) => vio!("C26/conversion", "into_opt_both() of {:?} has the error {}", w, e),
                _ => {}
            }
        }
        2 => match (res.into_result(), w) {
            (Ok(d), w) if !matches!(w, What::Error(_)) => check!(Some(d.size()) == was.map(|x| x.0), "C26/changed", "into_result() changed the data"),
            (Err(e), What::Error(k)) => check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind()),
            (_, w) => vio!("C26/result", "into_result() of {:?}", w),
        },
        _ => match (res.into_result_strict(), w) {
            (Err(e), What::Error(k)) | (Err(e), What::Io(k)) => check!(e.kind() == k, "C26/kind", "{:?} became {:?}", k, e.kind()),
            (Ok(_), What::Error(_)) | (Ok(_), What::Io(_)) => vio!("C26/strict", "into_result_strict() hides {:?}", w),
            (Err(e), What::Full) => vio!("C26/strict", "into_result_strict() of success is {}", e),
            _ => {}
        },
    }
    let _ = files(&tmp());
}
