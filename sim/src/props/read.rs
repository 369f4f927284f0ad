//! C01-C05: reading a request body.
use super::*;
use crate::gen::{self, Form, Opts};
use crate::io::*;
use crate::{alloc, check, vio};
use multipart::server::save::{Entries, PartialReason, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntry, ReadEntryResult};
use std::io::{BufRead, ErrorKind, Read};

// ---- C01 --------------------------------------------------------------------------------------

#[derive(Debug, PartialEq, Clone)]
enum Tr {
    Entry(String, Option<String>, Option<String>, Vec<u8>),
    DataErr(Vec<u8>, ErrorKind),
    End,
    Err(ErrorKind),
}

/// Everything a straightforward reader sees, until the end or the first error.
fn transcript(bytes: &Arc<Vec<u8>>, boundary: &str, seg: Seg) -> Vec<Tr> {
    let (r, _h) = src(bytes.clone(), seg);
    let mut mp = Multipart::with_body(r, boundary);
    let mut out = Vec::new();
    loop {
        match next(&mut mp) {
            Ok(Some(mut f)) => {
                let mut d = Vec::new();
                let r = f.data.read_to_end(&mut d);
                let ct = f.headers.content_type.as_ref().map(|m| m.to_string());
                if let Err(e) = r {
                    out.push(Tr::DataErr(d, e.kind()));
                    return out;
                }
                out.push(Tr::Entry(f.headers.name.to_string(), f.headers.filename.clone(), ct, d));
            }
            Ok(None) => {
                out.push(Tr::End);
                return out;
            }
            Err(e) => {
                out.push(Tr::Err(e.kind()));
                return out;
            }
        }
        if out.len() > 4000 {
            vio!("C01/endless", "more than 4000 entries from a body of {} bytes", bytes.len());
        }
    }
}

pub fn mutate(b: &mut Vec<u8>, marks: &[usize], boundary: &str) {
    let n = 1 + draw(3);
    for _ in 0..n {
        let p = draw_pos(b.len(), marks);
        match draw(7) {
            0 => {
                if p < b.len() {
                    b[p] = pick(&[b'\r', b'\n', b'-', b'X', 0u8, 0xff, b':', b'"', b' '])
                }
            }
            1 => {
                let k = 1 + draw(6) as usize;
                let e = (p + k).min(b.len());
                b.drain(p..e);
            }
            2 => {
                let ins: Vec<u8> = pick(&[&b"\r\n"[..], b"\r", b"\n", b"--", b"-", b"\r\n\r\n", b" "]).to_vec();
                b.splice(p..p, ins);
            }
            3 => {
                let ins = format!("{}--{}{}", pick(&["", "\r\n", "\r", "x", "\n"]), boundary, pick(&["", "\r\n", "--", "-", "\r", "xx", "\n", "--\r\n"]));
                b.splice(p..p, ins.into_bytes());
            }
            4 => b.truncate(p),
            5 => {
                let k = 1 + draw(200) as usize;
                let e = (p + k).min(b.len());
                let c = b[p..e].to_vec();
                let q = draw_pos(b.len(), marks);
                b.splice(q..q, c);
            }
            _ => {
                let k = 1 + draw(300) as usize;
                let e = (p + k).min(b.len());
                b.drain(p..e);
            }
        }
    }
}

pub fn c01(_: &Arc<Ctx>) {
    let form = gen::form(&Opts::default());
    let e = gen::encode(&form);
    if draw(3) < 2 {
        let (r, h) = seg_src(&e);
        sample(|| format!("fields {} in {} bytes, boundary {:?}, {:?}", describe(&form.fields), e.bytes.len(), form.boundary, with_src(&h, |s| s.seg.clone())));
        let mut mp = Multipart::with_body(r, form.boundary.as_str());
        let style = draw(3);
        for (i, want) in form.fields.iter().enumerate() {
            match next(&mut mp) {
                Ok(Some(mut f)) => {
                    check_headers("C01/headers", &f.headers, want);
                    let mut d = Vec::new();
                    let r = match style {
                        0 => f.data.read_to_end(&mut d).map(|_| ()),
                        1 => std::io::copy(&mut f.data, &mut d).map(|_| ()),
                        _ => loop {
                            match f.data.fill_buf() {
                                Ok(b) if b.is_empty() => break Ok(()),
                                Ok(b) => {
                                    d.extend_from_slice(b);
                                    let n = b.len();
                                    f.data.consume(n);
                                }
                                Err(e) => break Err(e),
                            }
                        },
                    };
                    if let Err(er) = r {
                        vio!("C01/data-error", "reading field {} of a well-formed body failed: {}", i, er);
                    }
                    check!(d == want.data, "C01/data", "field {} ({}): {}", i, want.name, diff(&d, &want.data));
                    ev("field", i as u64, d.len() as u64);
                }
                Ok(None) => vio!("C01/early-end", "end of the request reported before field {} of {}", i, form.fields.len()),
                Err(er) => vio!("C01/error", "well-formed body rejected at field {} of {}: {}", i, form.fields.len(), er),
            }
        }
        match next(&mut mp) {
            Ok(None) => {}
            Ok(Some(f)) => vio!("C01/extra", "extra field {:?} after the last one", f.headers.name),
            Err(er) => vio!("C01/no-end", "end of a well-formed body not recognised: {}", er),
        };
    } else {
        let mut b = e.bytes.clone();
        mutate(&mut b, &e.marks, &form.boundary);
        let b = Arc::new(b);
        let want = transcript(&b, &form.boundary, Seg::Whole);
        let mut marks = e.marks.clone();
        let delim = format!("--{}", form.boundary);
        let mut from = 0;
        while let Some(i) = gen::contains(&b[from..], delim.as_bytes()) {
            marks.push(from + i);
            marks.push(from + i + delim.len());
            from += i + 1;
        }
        let seg = draw_seg(b.len(), &marks);
        sample(|| format!("mutated body of {} bytes, {:?}", b.len(), seg));
        note(|| format!("mutated body {}", show(&b)));
        let got = transcript(&b, &form.boundary, seg.clone());
        probe(match want.last() {
            Some(Tr::End) => "mutated:end",
            Some(Tr::Err(ErrorKind::UnexpectedEof)) => "mutated:unexpected-eof",
            Some(Tr::Err(ErrorKind::InvalidData)) => "mutated:invalid-data",
            _ => "mutated:other",
        });
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            vio!("C01/split-dependent", "malformed body of {} bytes parsed differently when split as {:?}: at step {} got {} instead of {}", b.len(), seg, i, tr(got.get(i)), tr(want.get(i)));
        }
    }
}

fn tr(t: Option<&Tr>) -> String {
    match t {
        None => "nothing".into(),
        Some(Tr::Entry(n, f, c, d)) => format!("entry {:?} {:?} {:?} data[{}] {}", n, f, c, d.len(), show(d)),
        Some(Tr::DataErr(d, k)) => format!("data {} then {:?}", show(d), k),
        Some(x) => format!("{:?}", x),
    }
}

// ---- C02 --------------------------------------------------------------------------------------

/// What a call that failed should do about the failure.
struct Retry<'a> {
    class: &'a str,
    h: &'a SrcH,
    allow: bool,
    /// the source is only ever interrupted, which the std helpers retry
    soft: bool,
    /// length of the delimiter with its line break, of which a part may be held back
    slack: usize,
}

impl<'a> Retry<'a> {
    fn before(&self) {
        with_src(self.h, |s| s.last_err = None);
    }
    /// a successful call must not have swallowed an error of the source
    fn ok(&self) {
        if let Some(k) = with_src(self.h, |s| s.last_err) {
            if k != ErrorKind::Interrupted {
                vio!(&format!("{}/swallowed", self.class), "the source failed with {:?} during a call that reported success", k);
            }
        }
    }
    fn err(&self, what: &str, e: &std::io::Error) {
        let k = with_src(self.h, |s| s.last_err.take());
        if !self.allow {
            vio!(&format!("{}/error", self.class), "{} failed on a healthy well-formed body: {}", what, e);
        }
        if e.kind() == ErrorKind::Interrupted {
            return;
        }
        match k {
            Some(k) if k == e.kind() => {}
            Some(k) => vio!(&format!("{}/kind", self.class), "{} failed with {:?} ({}), the source had failed with {:?}", what, e.kind(), e, k),
            None => vio!(&format!("{}/invented", self.class), "{} failed with {:?} ({}) although the source had not failed", what, e.kind(), e),
        }
    }
}

/// Drawn reader calls on one field; `pos` is the model's cursor. Returns true if the end was seen.
fn consume<M: ReadEntry>(d: &mut MultipartData<M>, want: &[u8], pos: &mut usize, rt: &Retry, max_ops: u32, finish: bool) -> bool {
    let cl = rt.class;
    let mut ops = draw(max_ops + 1);
    let mut guard = 0;
    let mut kinds = 0u32;
    let mut least = 0;
    loop {
        guard += 1;
        if guard > 200_000 {
            vio!(&format!("{}/no-progress", cl), "reading a field of {} bytes makes no progress", want.len());
        }
        let op = if ops > 0 {
            ops -= 1;
            let op = 1 + draw(14);
            op + (op >= 10) as u32
        } else if finish {
            10
        } else {
            return false;
        };
        kinds |= 1 << op;
        if kinds.count_ones() > 1 {
            nontrivial();
        }
        rt.before();
        let rem = want.len() - *pos;
        match op {
            1 | 2 => {
                let n = if op == 1 { 1 + draw(16) as usize } else { pick(&[64usize, 500, 1024, 4096, 8192, 20000]) };
                let mut b = vec![0u8; n];
                match d.read(&mut b) {
                    Ok(k) => {
                        rt.ok();
                        ev("read", n as u64, k as u64);
                        if k == 0 {
                            check!(rem == 0, format!("{}/early-eof", cl).as_str(), "end of data reported {} bytes before the end of a field of {} bytes", rem, want.len());
                            return true;
                        }
                        check!(k <= n && k <= rem, format!("{}/surplus", cl).as_str(), "read returned {} bytes, only {} were left in the field", k, rem);
                        check!(b[..k] == want[*pos..*pos + k], format!("{}/data", cl).as_str(), "at byte {}: {}", pos, diff(&b[..k], &want[*pos..*pos + k]));
                        *pos += k;
                    }
                    Err(e) => rt.err("read", &e),
                }
            }
            3 | 4 | 5 | 10 => {
                let k = match d.fill_buf() {
                    Ok(b) => {
                        let k = b.len();
                        check!(k <= rem, format!("{}/surplus", cl).as_str(), "fill_buf offers {} bytes, only {} are left in the field", k, rem);
                        check!(b == &want[*pos..*pos + k], format!("{}/data", cl).as_str(), "fill_buf at byte {}: {}", pos, diff(b, &want[*pos..*pos + k]));
                        k
                    }
                    Err(e) => {
                        rt.err("fill_buf", &e);
                        continue;
                    }
                };
                rt.ok();
                ev("fill", k as u64, rem as u64);
                check!(k >= rem.min(least), format!("{}/minimum", cl).as_str(), "fill_buf offers {} of {} bytes, at least {} were asked for", k, rem, least + rt.slack);
                if least > 0 && rem > k {
                    probe("minimum-offered");
                }
                if k == 0 {
                    check!(rem == 0, format!("{}/early-eof", cl).as_str(), "fill_buf reports the end {} bytes before the end of a field of {} bytes", rem, want.len());
                    return true;
                }
                let take = match op {
                    3 => 0,
                    4 => draw(k as u32 + 1) as usize,
                    5 => {
                        if draw(2) == 0 {
                            1
                        } else {
                            k
                        }
                    }
                    _ => k,
                };
                if take == 0 {
                    probe("peek-without-consume");
                }
                d.consume(take);
                *pos += take;
            }
            6 => {
                let m = pick(&[0usize, 1, 16, 512, 1024, 1500, 2048, 4096, 8000, 8190, 8191, 8192, 9000, 16384, 40000, 70_000]);
                ev("set-min", m as u64, 0);
                probe("set_min_buf_size");
                d.set_min_buf_size(m);
                least = m.saturating_sub(rt.slack);
            }
            7 => {
                let mut v = Vec::new();
                let r = d.read_to_end(&mut v);
                check!(v.len() <= rem, format!("{}/surplus", cl).as_str(), "read_to_end gave {} bytes, {} were left", v.len(), rem);
                check!(v[..] == want[*pos..*pos + v.len()], format!("{}/data", cl).as_str(), "read_to_end from byte {}: {}", pos, diff(&v, &want[*pos..*pos + v.len()]));
                *pos += v.len();
                match r {
                    Ok(n) => {
                        rt.ok();
                        check!(*pos == want.len(), format!("{}/early-eof", cl).as_str(), "read_to_end stopped after {} bytes, {} were left", n, rem);
                        return true;
                    }
                    Err(e) => rt.err("read_to_end", &e),
                }
            }
            8 => {
                let mut v = Vec::new();
                let r = d.read_until(b'\n', &mut v);
                check!(v.len() <= rem && v[..] == want[*pos..*pos + v.len()], format!("{}/data", cl).as_str(), "read_until from byte {}: {}", pos, diff(&v, &want[*pos..]));
                *pos += v.len();
                match r {
                    Ok(_) => {
                        rt.ok();
                        let exp = want[*pos - v.len()..].iter().position(|&c| c == b'\n').map_or(rem, |i| i + 1);
                        check!(v.len() == exp, format!("{}/early-eof", cl).as_str(), "read_until returned {} bytes instead of {}", v.len(), exp);
                        if exp == 0 {
                            return true;
                        }
                    }
                    Err(e) => rt.err("read_until", &e),
                }
            }
            // a failed read_exact() or read_to_string() does not say how far it got
            11 if !rt.allow || rt.soft => {
                let n = if draw(8) == 7 { rem + 1 + draw(50) as usize } else { draw(rem.min(12_000) as u32 + 1) as usize };
                let mut b = vec![0u8; n];
                let r = d.read_exact(&mut b);
                match r {
                    Ok(()) => {
                        check!(n <= rem, format!("{}/surplus", cl).as_str(), "read_exact gave {} bytes, {} were left", n, rem);
                        check!(b[..] == want[*pos..*pos + n], format!("{}/data", cl).as_str(), "read_exact from byte {}: {}", pos, diff(&b, &want[*pos..*pos + n]));
                        *pos += n;
                        probe("read_exact");
                    }
                    Err(e) => {
                        check!(e.kind() == ErrorKind::UnexpectedEof && n > rem, format!("{}/exact", cl).as_str(), "read_exact of {} of {} bytes failed: {}", n, rem, e);
                        return true;
                    }
                }
            }
            12 | 13 if !rt.allow || rt.soft => {
                let (what, len) = if op == 12 { ("read_to_string", rem) } else { ("read_line", want[*pos..].iter().position(|&c| c == b'\n').map_or(rem, |i| i + 1)) };
                let exp = std::str::from_utf8(&want[*pos..*pos + len]);
                let mut v = String::from("before");
                match if op == 12 { d.read_to_string(&mut v) } else { d.read_line(&mut v) } {
                    Ok(n) => {
                        check!(
                            n == len && exp.map_or(false, |x| v.strip_prefix("before") == Some(x)),
                            format!("{}/data", cl).as_str(),
                            "{} from byte {}: {}",
                            what,
                            pos,
                            diff(v.as_bytes(), &want[*pos..*pos + len])
                        );
                        *pos += len;
                        probe("read-text");
                    }
                    Err(e) => {
                        check!(e.kind() == ErrorKind::InvalidData && exp.is_err(), format!("{}/text", cl).as_str(), "{} of {} bytes failed: {}", what, len, e);
                        return true;
                    }
                }
            }
            14 => {
                let n = 1 + draw(40) as usize;
                let mut k = 0;
                for r in (&mut *d).bytes().take(n) {
                    match r {
                        Ok(x) => {
                            check!(k < rem && x == want[*pos], format!("{}/data", cl).as_str(), "bytes() gave {:?} at byte {} of {}", x, pos, want.len());
                            *pos += 1;
                            k += 1;
                        }
                        Err(e) => {
                            rt.err("bytes", &e);
                            k = usize::MAX;
                            break;
                        }
                    }
                }
                if k < usize::MAX {
                    rt.ok();
                    check!(k == n.min(rem), format!("{}/early-eof", cl).as_str(), "bytes() gave {} of {} bytes", k, n.min(rem));
                }
            }
            15 => {
                let mut b = vec![vec![0u8; draw(9) as usize], vec![0u8; 1 + draw(700) as usize], vec![0u8; 9000]];
                let mut v: Vec<std::io::IoSliceMut> = b.iter_mut().map(|b| std::io::IoSliceMut::new(b)).collect();
                match d.read_vectored(&mut v) {
                    Ok(k) => {
                        rt.ok();
                        drop(v);
                        let all = b.concat();
                        check!(k <= rem && all[..k] == want[*pos..*pos + k], format!("{}/data", cl).as_str(), "read_vectored at byte {}: {}", pos, diff(&all[..k.min(all.len())], &want[*pos..*pos + k.min(rem)]));
                        check!(k > 0 || rem == 0, format!("{}/early-eof", cl).as_str(), "read_vectored reports the end {} bytes before it", rem);
                        *pos += k;
                    }
                    Err(e) => rt.err("read_vectored", &e),
                }
            }
            _ => {
                let n = 1 + draw(300) as usize;
                let mut v = Vec::new();
                let r = (&mut *d).take(n as u64).read_to_end(&mut v);
                check!(v.len() <= rem && v[..] == want[*pos..*pos + v.len()], format!("{}/data", cl).as_str(), "take({}) from byte {}: {}", n, pos, diff(&v, &want[*pos..]));
                *pos += v.len();
                match r {
                    Ok(_) => {
                        rt.ok();
                        check!(v.len() == n.min(rem), format!("{}/early-eof", cl).as_str(), "take({}) gave {} bytes, {} were left", n, v.len(), rem);
                    }
                    Err(e) => rt.err("take", &e),
                }
            }
        }
    }
}

/// Walk through a request in a drawn style; with `retry` the source may fail and calls are repeated.
fn walk(form: &Form, r: SimRead, h: &SrcH, class: &'static str, allow: bool, max_ops: u32) {
    let rt = Retry { class, h, allow, soft: soft(h), slack: form.boundary.len() + 4 };
    let fields = &form.fields;
    let retry = || {
        let n = with_src(h, |s| s.errors);
        if n > 400 {
            with_src(h, |s| s.heal());
        }
    };
    let entry = |i: usize, hd: &multipart::server::FieldHeaders| {
        check!(i < fields.len(), format!("{}/extra", class).as_str(), "extra field {:?} after the last of {}", hd.name, fields.len());
        check_headers(&format!("{}/headers", class), hd, &fields[i]);
        ev("entry", i as u64, 0);
    };
    let end = |i: usize| {
        check!(i == fields.len(), format!("{}/early-end", class).as_str(), "end of the request reported before field {} of {}", i, fields.len());
        ev("end", i as u64, 0);
    };
    let style = draw(5);
    let mut i = 0;
    match style {
        0 | 4 => {
            let mut mp = Multipart::with_body(r, form.boundary.as_str());
            let mut ends = 0;
            loop {
                rt.before();
                let res = if style == 0 { next(&mut mp) } else { mp.read_entry_mut().into_result() };
                match res {
                    Ok(Some(mut f)) => {
                        rt.ok();
                        entry(i, &f.headers);
                        let mut pos = 0;
                        let fin = draw(3) == 0;
                        consume(&mut f.data, &fields[i].data, &mut pos, &rt, max_ops, fin);
                        i += 1;
                    }
                    Ok(None) => {
                        rt.ok();
                        end(i);
                        ends += 1;
                        if ends == 3 {
                            return;
                        }
                    }
                    Err(e) => {
                        rt.err("read_entry", &e);
                        retry();
                    }
                }
            }
        }
        1 => {
            let mut m = Some(Multipart::with_body(r, form.boundary.as_str()));
            let mut cur: Option<MultipartField<Mp>> = None;
            let mut ends = 0;
            loop {
                rt.before();
                let res = match cur.take() {
                    Some(f) => f.next_entry(),
                    None => m.take().unwrap().into_entry(),
                };
                match res {
                    ReadEntryResult::Entry(mut f) => {
                        rt.ok();
                        entry(i, &f.headers);
                        let mut pos = 0;
                        let fin = draw(3) == 0;
                        consume(&mut f.data, &fields[i].data, &mut pos, &rt, max_ops, fin);
                        i += 1;
                        if draw(4) == 3 {
                            m = Some(f.data.into_inner());
                        } else {
                            cur = Some(f);
                        }
                    }
                    ReadEntryResult::End(x) => {
                        rt.ok();
                        end(i);
                        ends += 1;
                        if ends == 3 {
                            return;
                        }
                        m = Some(x);
                    }
                    ReadEntryResult::Error(x, e) => {
                        rt.err("next_entry", &e);
                        retry();
                        m = Some(x);
                    }
                }
            }
        }
        2 => {
            let mut m = Some(Multipart::with_body(r, form.boundary.as_str()));
            let mut f = loop {
                rt.before();
                match m.take().unwrap().into_entry() {
                    ReadEntryResult::Entry(f) => break f,
                    ReadEntryResult::End(_) => {
                        rt.ok();
                        end(0);
                        return;
                    }
                    ReadEntryResult::Error(x, e) => {
                        rt.err("into_entry", &e);
                        retry();
                        m = Some(x);
                    }
                }
            };
            let mut fresh = true;
            let mut ends = 0;
            loop {
                if fresh {
                    rt.ok();
                    entry(i, &f.headers);
                    let mut pos = 0;
                    let fin = draw(3) == 0;
                    consume(&mut f.data, &fields[i].data, &mut pos, &rt, max_ops, fin);
                    i += 1;
                    fresh = false;
                }
                rt.before();
                match f.next_entry_inplace() {
                    Ok(Some(_)) => fresh = true,
                    Ok(None) => {
                        rt.ok();
                        end(i);
                        ends += 1;
                        if ends == 3 {
                            return;
                        }
                    }
                    Err(e) => {
                        rt.err("next_entry_inplace", &e);
                        retry();
                    }
                }
            }
        }
        _ => {
            let mut mp = Multipart::with_body(r, form.boundary.as_str());
            loop {
                rt.before();
                let mut k = i;
                let res = mp.foreach_entry(|mut f| {
                    entry(k, &f.headers);
                    let mut pos = 0;
                    let fin = draw(3) == 0;
                    consume(&mut f.data, &fields[k].data, &mut pos, &rt, max_ops, fin);
                    rt.before();
                    k += 1;
                });
                i = k;
                match res {
                    Ok(()) => {
                        rt.ok();
                        end(i);
                        return;
                    }
                    Err(e) => {
                        rt.err("foreach_entry", &e);
                        retry();
                    }
                }
            }
        }
    }
}

pub fn c02(_: &Arc<Ctx>) {
    let form = gen::form(&Opts::default());
    let e = gen::encode(&form);
    let (r, h) = seg_src(&e);
    sample(|| format!("fields {} in {} bytes, {:?}, drawn reader calls", describe(&form.fields), e.bytes.len(), with_src(&h, |s| s.seg.clone())));
    walk(&form, r, &h, "C02", false, 12);
}

// ---- C03 --------------------------------------------------------------------------------------

pub fn c03(_: &Arc<Ctx>) {
    let form = gen::form(&Opts { max_len: 12_000, ..Opts::default() });
    let mut e = gen::encode(&form);
    // all bytes arrive, but what follows one of the delimiters is destroyed
    let damaged = if draw(6) == 5 {
        let k = draw(form.fields.len() as u32 + 1) as usize;
        let p = e.spans.get(k).map_or(e.close_end, |s| s.0) - 2;
        let junk = pick(&[b"XY", b"-X", b"X-", b"ab", b"\0\0", b"-\r", b"\rX", b"\xff\xff"]);
        e.bytes[p..p + 2].copy_from_slice(junk);
        note(|| format!("the two bytes at {} are {:?}", p, junk));
        Some(p + 2)
    } else {
        None
    };
    let (r, h) = seg_src(&e);
    let cut = damaged.unwrap_or_else(|| draw_pos(e.close_end - 1, &e.marks));
    let endk = match draw(3) {
        _ if damaged.is_some() => End::Eof,
        0 | 1 => End::Eof,
        _ => End::Err(pick(&KINDS[1..])),
    };
    with_src(&h, |s| {
        if damaged.is_none() {
            s.stop = cut;
        }
        s.end = endk;
    });
    fault(match endk {
        _ if damaged.is_some() => "source:damaged-delimiter",
        End::Eof => "source:cut",
        _ => "source:cut-by-error",
    });
    sample(|| format!("fields {} in {} bytes cut at {} ({:?})", describe(&form.fields), e.bytes.len(), cut, endk));
    for (i, s) in e.spans.iter().enumerate() {
        if cut > s.0 && cut < s.1 {
            probe("cut-in-headers");
        }
        if cut >= s.1 && cut < s.2 {
            probe("cut-in-data");
        }
        let next = e.spans.get(i + 1).map_or(e.close_end, |n| n.0);
        if cut >= s.2 && cut < next {
            probe("cut-in-delimiter");
        }
    }
    let delim = form.boundary.len() + 2;
    // data of field i that may be delivered, and whether it is certainly complete
    let avail = |i: usize| -> (usize, bool) {
        let (_, ds, de) = e.spans[i];
        let complete = cut >= de + 2 + delim;
        (if complete { de - ds } else { cut.saturating_sub(ds).min(de - ds) }, complete)
    };
    let judge = |i: usize, d: &[u8], whole: bool| {
        check!(i < form.fields.len(), "C03/extra", "entry {} of only {} in the body", i, form.fields.len());
        let (a, complete) = avail(i);
        let want = &form.fields[i].data;
        // bytes after the data's end cannot be told from data until the delimiter is complete, so
        // what was delivered is a prefix of the data followed by (part of) the cut delimiter
        check!(d.len() <= a && d == &want[..d.len()], "C03/not-prefix", "field {} cut at {}: {}", i, cut, diff(d, &want[..a]));
        if whole && complete {
            check!(d.len() == want.len(), "C03/short", "field {} arrived completely but only {} of {} bytes were delivered", i, d.len(), want.len());
        }
    };
    if draw(2) == 0 {
        let mut errs = 0;
        let visit = |i: usize, errs: u32, hd: &multipart::server::FieldHeaders, data: &mut dyn std::io::BufRead| {
            if errs > 0 {
                // a repeated call after a failure may only go on with what really was there
                probe("entry-after-error");
                check!(i < form.fields.len(), "C03/extra", "an entry appeared after the failure at the cut");
            }
            check!(i < form.fields.len() && e.spans[i].1 <= cut, "C03/phantom", "field {} delivered although its headers had not arrived (cut at {})", i, cut);
            check_headers("C03/headers", hd, &form.fields[i]);
            match draw(4) {
                0 => {}
                1 => {
                    let mut b = vec![0; 1 + draw(3000) as usize];
                    if let Ok(n) = data.read(&mut b) {
                        judge(i, &b[..n], false);
                    }
                }
                _ => {
                    let mut d = Vec::new();
                    let r = data.read_to_end(&mut d);
                    judge(i, &d, r.is_ok());
                }
            }
        };
        let complete = || -> ! { vio!("C03/complete", "the end of the request was reported although the body was cut at {} of {}", cut, e.close_end) };
        let style = draw(5);
        probe(["cut:read_entry", "cut:read_entry_mut", "cut:foreach_entry", "cut:next_entry", "cut:next_entry_inplace"][style as usize]);
        let mut mp = Multipart::with_body(r, form.boundary.as_str());
        let mut i = 0;
        match style {
            0 | 1 => loop {
                match if style == 0 { next(&mut mp) } else { mp.read_entry_mut().into_result() } {
                    Ok(Some(mut f)) => {
                        visit(i, errs, &f.headers, &mut f.data);
                        i += 1;
                    }
                    Ok(None) => complete(),
                    Err(_) => errs += 1,
                }
                if errs > 2 {
                    break;
                }
            },
            2 => {
                while errs < 3 {
                    if mp
                        .foreach_entry(|mut f| {
                            visit(i, errs, &f.headers, &mut f.data);
                            i += 1;
                        })
                        .is_ok()
                    {
                        complete();
                    }
                    errs += 1;
                }
            }
            3 => {
                let mut res = mp.into_entry();
                while errs < 3 {
                    res = match res {
                        ReadEntryResult::Entry(mut f) => {
                            visit(i, errs, &f.headers, &mut f.data);
                            i += 1;
                            f.next_entry()
                        }
                        ReadEntryResult::End(_) => complete(),
                        ReadEntryResult::Error(m, _) => {
                            errs += 1;
                            m.into_entry()
                        }
                    };
                }
            }
            _ => match mp.into_entry() {
                ReadEntryResult::Entry(mut f) => {
                    visit(i, errs, &f.headers, &mut f.data);
                    while errs < 3 {
                        match f.next_entry_inplace() {
                            Ok(Some(f)) => {
                                i += 1;
                                visit(i, errs, &f.headers, &mut f.data);
                            }
                            Ok(None) => complete(),
                            Err(_) => errs += 1,
                        }
                    }
                }
                ReadEntryResult::End(_) => complete(),
                ReadEntryResult::Error(..) => {}
            },
        }
    } else {
        let m = pick(&[0u64, 16, 1024, 10_240, u64::MAX]);
        let mut mp = Multipart::with_body(r, form.boundary.as_str());
        let res = mp.save().memory_threshold(m).size_limit(None).count_limit(None).temp();
        let check_entries = |en: &Entries| {
            for (name, v) in &en.fields {
                let want: Vec<usize> = (0..form.fields.len()).filter(|&i| form.fields[i].name == **name).collect();
                check!(v.len() <= want.len(), "C03/extra", "{} entries named {:?}, the body had {}", v.len(), name, want.len());
                for (sf, &i) in v.iter().zip(&want) {
                    check_headers("C03/headers", &sf.headers, &form.fields[i]);
                    let d = saved_bytes("C03", &sf.data);
                    judge(i, &d, true);
                }
            }
        };
        match res {
            SaveResult::Full(_) => vio!("C03/full", "the save reported full success although the body was cut at {} of {}", cut, e.close_end),
            SaveResult::Partial(p, PartialReason::IoError(er)) => {
                check_entries(&p.entries);
                let i = p.entries.fields_count() as usize;
                if let Some(ps) = &p.partial {
                    check!(i < form.fields.len(), "C03/extra", "partial entry {} of {}", i, form.fields.len());
                    check_headers("C03/headers", &ps.source.headers, &form.fields[i]);
                    if let Some(d) = &ps.dest {
                        let d = saved_bytes("C03", d);
                        judge(i, &d, false);
                    }
                }
                // the pessimistic conversions must not turn this into success
                match draw(3) {
                    0 => {
                        let r: SaveResult<Entries, _> = SaveResult::Partial(p, PartialReason::IoError(er));
                        check!(r.into_result_strict().is_err(), "C03/strict", "into_result_strict() is Ok for a cut request");
                    }
                    1 => {
                        let r: SaveResult<Entries, _> = SaveResult::Partial(p, PartialReason::IoError(er));
                        check!(r.into_opt_both().1.is_some(), "C03/strict", "into_opt_both() has no error for a cut request");
                    }
                    _ => {}
                }
            }
            SaveResult::Partial(_, r) => vio!("C03/reason", "a cut request was reported as {:?}", r),
            SaveResult::Error(_) => {}
        }
    }
}

pub fn saved_bytes(class: &str, d: &SavedData) -> Vec<u8> {
    match d {
        SavedData::Text(s) => s.as_bytes().to_vec(),
        SavedData::Bytes(b) => b.clone(),
        SavedData::File(p, n) => {
            let b = unarmed(|| std::fs::read(p));
            match b {
                Ok(b) => {
                    check!(b.len() as u64 == *n, format!("{}/size", class).as_str(), "recorded size {} but the file has {} bytes", n, b.len());
                    b
                }
                Err(e) => vio!(&format!("{}/missing-file", class), "the saved file cannot be read: {}", e),
            }
        }
    }
}

// ---- C04 --------------------------------------------------------------------------------------

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

/// nothing worse than interruptions is planned for this source
fn soft(h: &SrcH) -> bool {
    with_src(h, |s| s.faults.iter().all(|f| f.kind == ErrorKind::Interrupted))
}

pub fn draw_faults(h: &SrcH, e: &crate::gen::Enc) {
    let n = 1 + draw(4);
    let only = chance(1, 6);
    for _ in 0..n {
        let pos = draw_pos(e.bytes.len(), &e.marks);
        let kind = if only { ErrorKind::Interrupted } else { pick(KINDS) };
        let left = 1 + draw(3);
        for (hs, ds, _) in &e.spans {
            if pos > *hs && pos < *ds {
                probe("fault-placed-in-headers");
            }
        }
        with_src(h, |s| s.faults.push(SrcFault { pos, kind, left }));
    }
    if chance(1, 3) {
        with_src(h, |s| s.eintr = 5);
    }
}

pub fn c04(_: &Arc<Ctx>) {
    let form = gen::form(&Opts { max_len: 12_000, ..Opts::default() });
    let e = gen::encode(&form);
    let (r, h) = seg_src(&e);
    draw_faults(&h, &e);
    sample(|| format!("fields {} in {} bytes, faults {:?}", describe(&form.fields), e.bytes.len(), with_src(&h, |s| s.faults.iter().map(|f| (f.pos, f.kind, f.left)).collect::<Vec<_>>())));
    if draw(2) == 0 {
        walk(&form, r, &h, "C04", true, 8);
        return;
    }
    // saving with resumption
    let m = pick(&[0u64, 16, 1000, 1024, 10_240, u64::MAX]);
    let mut mp = Multipart::with_body(r, form.boundary.as_str());
    let rt = Retry { class: "C04", h: &h, allow: true, soft: soft(&h), slack: form.boundary.len() + 4 };
    let mut entries: Option<Entries> = None;
    // index of fields that were finished by hand
    let mut by_hand: Vec<usize> = Vec::new();
    let mut seen = 0usize;
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > 200 {
            with_src(&h, |s| s.heal());
        }
        check!(rounds < 400, "C04/no-progress", "the save does not finish after the source recovered");
        rt.before();
        let pol = draw(3);
        let b = mp.save().memory_threshold(m).size_limit(None).count_limit(None);
        let b = match pol {
            0 => b,
            1 => b.ignore_text(),
            _ => b.try_text(),
        };
        let res = match entries.take() {
            None => b.temp(),
            Some(en) => b.with_entries(en),
        };
        match res {
            SaveResult::Full(en) => {
                rt.ok();
                check_saved("C04", &en, &form, &by_hand, form.fields.len());
                return;
            }
            SaveResult::Partial(p, PartialReason::IoError(er)) => {
                rt.err("save", &er);
                probe("resumed-save");
                seen = seen.max(p.entries.fields_count() as usize + by_hand.len());
                let i = p.entries.fields_count() as usize + by_hand.len();
                if let Some(mut ps) = p.partial {
                    probe("partial-field-finished-by-hand");
                    check!(i < form.fields.len(), "C04/extra", "partial field {} of {}", i, form.fields.len());
                    check_headers("C04/headers", &ps.source.headers, &form.fields[i]);
                    let d = ps.dest.as_ref().map_or(Vec::new(), |d| saved_bytes("C04", d));
                    let want = &form.fields[i].data;
                    check!(d.len() <= want.len() && d[..] == want[..d.len()], "C04/partial-data", "what was kept of field {}: {}", i, diff(&d, want));
                    let mut pos = d.len();
                    consume(&mut ps.source.data, want, &mut pos, &rt, 3, true);
                    check!(pos == want.len(), "C04/lost", "{} of {} bytes of field {} after resuming", pos, want.len(), i);
                    by_hand.push(i);
                }
                check_saved("C04", &p.entries, &form, &by_hand, i);
                entries = Some(p.entries);
            }
            SaveResult::Partial(_, r) => vio!("C04/reason", "a source error was reported as {:?}", r),
            SaveResult::Error(er) => {
                vio!("C04/start", "the save failed at its start: {}", er);
            }
        }
    }
}

/// `en` holds exactly the first `upto` fields, except those finished by hand.
pub fn check_saved(class: &str, en: &Entries, form: &Form, skip: &[usize], upto: usize) {
    let cnt: usize = en.fields.values().map(|v| v.len()).sum();
    let exp: Vec<usize> = (0..upto).filter(|i| !skip.contains(i)).collect();
    check!(cnt == exp.len(), format!("{}/count", class).as_str(), "{} entries saved, expected {} of {} fields", cnt, exp.len(), form.fields.len());
    check!(en.fields_count() as usize == cnt, format!("{}/fields-count", class).as_str(), "fields_count() is {}, there are {} entries", en.fields_count(), cnt);
    for (name, v) in &en.fields {
        let want: Vec<usize> = exp.iter().copied().filter(|&i| form.fields[i].name == **name).collect();
        check!(v.len() == want.len(), format!("{}/names", class).as_str(), "{} entries named {:?}, expected {}", v.len(), name, want.len());
        for (sf, &i) in v.iter().zip(&want) {
            check_headers(&format!("{}/headers", class), &sf.headers, &form.fields[i]);
            let d = saved_bytes(class, &sf.data);
            check!(d == form.fields[i].data, format!("{}/data", class).as_str(), "field {} ({}): {}", i, name, diff(&d, &form.fields[i].data));
            check!(sf.data.size() == d.len() as u64, format!("{}/size", class).as_str(), "size() is {} for {} bytes", sf.data.size(), d.len());
        }
    }
}

// ---- C05 --------------------------------------------------------------------------------------

/// A delimiter and a header block put together from the pieces that parsers look for.
fn odd_headers(b: &mut Vec<u8>, boundary: &str) {
    const HEAD: &[&str] = &["Content-Disposition", "content-disposition", "Content-Type", "Content-Disposition ", "X", "", "Content-Transfer-Encoding"];
    const VAL: &[&str] = &[
        "form-data", "name", "filename", "=", ";", "\"", "\"\"", " ", "\t", "'", "\\\"", "\\", ",", "a", "\u{e9}", "\u{4e16}", "text", "/", "plain", "multipart/mixed", "boundary", "*=UTF-8''", "%", ":", "name=\"", "filename=\"",
        "form-data; name=\"a\"", "; name=", "; filename=", "form-data; ", "charset=", "\0", "\r", "\n", "\r\n ", "--",
    ];
    b.extend_from_slice(format!("{}--{}\r\n", pick(&["", "\r\n"]), boundary).as_bytes());
    for _ in 0..1 + draw(3) {
        let i = if draw(3) > 0 { 0 } else { draw(HEAD.len() as u32) as usize };
        b.extend_from_slice(HEAD[i].as_bytes());
        b.extend_from_slice(pick(&[": ", ":", " : ", ":  ", ""]).as_bytes());
        if i == 0 && draw(4) > 0 {
            b.extend_from_slice(b"form-data; ");
        }
        for _ in 0..draw(9) {
            b.extend_from_slice(pick(VAL).as_bytes());
        }
        if draw(8) == 7 {
            b.push(pick(&[0xffu8, 0x80, 0xc3, 0xf0]));
        }
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(pick(&["\r\n", "\r\n", "\r\n", "\n\r\n", ""]).as_bytes());
    b.extend_from_slice(b"data");
}

fn hostile(boundary: &str) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    let big = draw(12) == 0;
    let pieces = 1 + draw(10);
    for _ in 0..pieces {
        let n = match draw(4) {
            0 => draw(20) as usize,
            1 => draw(300) as usize,
            2 => draw(5000) as usize,
            _ => {
                if big {
                    100_000 + draw(200_000) as usize
                } else {
                    draw(9000) as usize
                }
            }
        };
        let mut r = Rng::new(draw(1 << 12) as u64);
        match draw(16) {
            13 | 14 => odd_headers(&mut b, boundary),
            0 => b.extend((0..n).map(|_| r.next() as u8)),
            1 => b.extend_from_slice(format!("--{}\r\n", boundary).as_bytes()),
            2 => b.extend_from_slice(format!("\r\n--{}\r\n", boundary).as_bytes()),
            3 => b.extend_from_slice(format!("\r\n--{}--", boundary).as_bytes()),
            4 => b.extend_from_slice(b"Content-Disposition: form-data; name=\"a\"\r\n\r\n"),
            5 => b.extend_from_slice(pick(&[
                &b"Content-Disposition: form-data; name=\"\xff\xfe\"\r\n\r\n"[..],
                b"Content-Disposition: form-data\r\n\r\n",
                b"Content-Disposition: attachment; name=\"a\"\r\n\r\n",
                b"Content-Disposition: form-data; name=\r\n\r\n",
                b"Content-Disposition: form-data; filename=\"x\"\r\n\r\n",
                b"Content-Disposition: form-data; name=\"a\r\nb\"\r\n\r\n",
                b"Content-Type: text/plain\r\n\r\n",
                b"Content-Type: \r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n",
                b"Content-Disposition: form-data; name=\"a\"\r\nContent-Type: ;;;\r\n\r\n",
                b"A: 1\r\nB: 2\r\nC: 3\r\nD: 4\r\nE: 5\r\n\r\n",
                b"\r\n\r\n",
                b": \r\n",
                b"Content-Disposition: form-data; name=\"name=\xc3\xa9;\"; filename=\"\"\r\n\r\n",
            ])),
            6 => b.extend(std::iter::repeat(b'\r').take(n)),
            7 => (0..n / 2).for_each(|_| b.extend_from_slice(b"\r\n")),
            8 => {
                let d = format!("\r\n--{}", boundary);
                let l = draw(d.len() as u32) as usize;
                for _ in 0..(n / (l + 1)) {
                    b.extend_from_slice(&d.as_bytes()[..l]);
                }
            }
            9 => {
                b.extend_from_slice(b"Content-Disposition: form-data; name=\"");
                b.extend(std::iter::repeat(b'n').take(n));
                b.extend_from_slice(b"\"\r\n\r\n");
            }
            10 => {
                for i in 0..n.min(3000) / 10 {
                    b.extend_from_slice(format!("H{}: v\r\n", i).as_bytes());
                }
            }
            11 => {
                let d = format!("--{}\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n\r\n", boundary);
                for _ in 0..(n / d.len()).min(400) {
                    b.extend_from_slice(d.as_bytes());
                }
            }
            _ => b.extend((0..n).map(|_| b'a' + r.below(26) as u8)),
        }
        if b.len() > 400_000 {
            break;
        }
    }
    b
}

pub fn c05(_: &Arc<Ctx>) {
    let (bytes, marks, boundary) = match draw(3) {
        0 => {
            let form = gen::form(&Opts { max_fields: 8, ..Opts::default() });
            let e = gen::encode(&form);
            let mut b = e.bytes;
            mutate(&mut b, &e.marks, &form.boundary);
            (b, e.marks, form.boundary)
        }
        _ => {
            let bd = gen::boundary();
            (hostile(&bd), vec![], bd)
        }
    };
    let len = bytes.len();
    let body = Arc::new(bytes);
    let seg = match draw_seg(len, &marks) {
        Seg::Fixed(n) if len / n > 20_000 => Seg::Fixed(len / 20_000 + 1),
        s => s,
    };
    let (r, h) = src(body.clone(), seg);
    if chance(1, 3) {
        let n = 1 + draw(3);
        for _ in 0..n {
            let f = SrcFault { pos: draw_pos(len, &marks), kind: pick(KINDS), left: 1 + draw(3) };
            with_src(&h, |s| s.faults.push(f));
        }
    }
    if chance(1, 8) {
        // (a source which is interrupted forever may be retried forever)
        let k = match pick(KINDS) {
            ErrorKind::Interrupted => ErrorKind::ConnectionReset,
            k => k,
        };
        with_src(&h, |s| s.end = End::Err(k));
    }
    sample(|| format!("body of {} bytes: {}", len, show(&body)));
    let mut mp = Multipart::with_body(r, boundary.as_str());
    let budget = || with_src(&h, |s| s.budget = s.reads + 5_000 + 8 * len as u64);
    let mut ended = false;
    let mut max_min = 0i64;
    let ops = 1 + draw(20);
    // reader calls may hold their buffer; saves what the limits allow
    let bound = |max_min: i64| 96 * 1024 + 4 * max_min;
    for _ in 0..ops {
        budget();
        let op = draw(10);
        if op < 6 {
            let n0 = alloc::start();
            let res = next(&mut mp);
            let pk = alloc::peak_since(n0);
            check!(pk <= bound(max_min), "C05/memory", "read_entry held {} bytes for a body of {}", pk, len);
            match res {
                Ok(None) => {
                    ended = true;
                    probe("end");
                }
                Ok(Some(f)) => {
                    check!(!ended, "C05/end-not-sticky", "an entry was delivered after the end of the request");
                    probe("entry");
                    let mut data = f.data;
                    let k = draw(6);
                    for _ in 0..k {
                        budget();
                        let n0 = alloc::start();
                        match draw(7) {
                            0 => {
                                let mut b = [0u8; 700];
                                let n = 1 + draw(700) as usize;
                                let _ = data.read(&mut b[..n]);
                            }
                            1 => {
                                let n = data.fill_buf().map(|b| b.len()).unwrap_or(0);
                                data.consume(draw(n as u32 + 1) as usize);
                            }
                            2 => {
                                // consuming without looking first is harmless
                                data.consume(draw(3000) as usize);
                            }
                            3 => {
                                let m = pick(&[0usize, 1, 100, 1024, 8192, 20_000]);
                                max_min = max_min.max(m as i64);
                                data.set_min_buf_size(m);
                            }
                            4 => {
                                let mut b = [0u8; 512];
                                let mut g = 0u64;
                                loop {
                                    match data.read(&mut b) {
                                        Ok(0) | Err(_) => break,
                                        Ok(_) => g += 1,
                                    }
                                    check!(g <= len as u64 + 8, "C05/endless", "a field yields more reads than the body has bytes");
                                }
                            }
                            5 => {
                                let s = pick(&[0u64, 1, 100, 3000, 20_000, 1 << 20]);
                                let w = std::io::sink();
                                let _ = data.save().size_limit(s).write_to(w);
                            }
                            _ => {
                                let (m, s) = (pick(&[0u64, 10, 1000, 20_000]), pick(&[0u64, 10, 1000, 20_000, 1 << 22]));
                                let pol = draw(3);
                                let mut b = data.save().memory_threshold(m).size_limit(s);
                                b = match pol {
                                    0 => b.try_text(),
                                    1 => b.force_text(),
                                    _ => b.ignore_text(),
                                };
                                max_min = max_min.max(m.min(s) as i64);
                                let r = b.temp();
                                drop(b);
                                let pk = alloc::peak_since(n0);
                                check!(pk <= bound(max_min), "C05/memory", "saving a field with threshold {} and limit {} held {} bytes", m, s, pk);
                                cleanup_field(r);
                            }
                        }
                        let pk = alloc::peak_since(n0);
                        check!(pk <= bound(max_min), "C05/memory", "reading held {} bytes for a body of {} (largest requested buffer {})", pk, len, max_min);
                    }
                }
                Err(_) => {
                    check!(!ended, "C05/end-not-sticky", "an error after the end of the request");
                    probe("error");
                }
            }
        } else {
            let m = pick(&[0u64, 1, 64, 1024, 10_240]);
            let s = pick(&[Some(0u64), Some(1), Some(100), Some(5000), None]);
            let c = pick(&[Some(0u32), Some(1), Some(3), Some(256), None]);
            let pol = draw(3);
            let n0 = alloc::start();
            let b = mp.save().memory_threshold(m).size_limit(s).count_limit(c);
            let b = match pol {
                0 => b.try_text(),
                1 => b.force_text(),
                _ => b.ignore_text(),
            };
            let r = if draw(2) == 0 {
                b.temp()
            } else {
                b.with_entries(Entries::new(SaveDir::Perm(std::env::temp_dir().join("d"))))
            };
            let pk = alloc::peak_since(n0);
            let (full, en) = match r {
                SaveResult::Full(e) => (true, Some(e)),
                SaveResult::Partial(p, _) => (false, Some(p.entries)),
                SaveResult::Error(_) => (false, None),
            };
            let nf = en.as_ref().map_or(0, |e| e.fields.values().map(|v| v.len()).sum::<usize>());
            let nh: usize = en.as_ref().map_or(0, |e| e.fields.values().flatten().map(|f| f.headers.name.len() + f.headers.filename.as_ref().map_or(0, |x| x.len())).sum());
            let lim = m.min(s.unwrap_or(u64::MAX)) as i64;
            let allow = bound(max_min) + (nf as i64 + 1) * (3 * lim + 3000) + 4 * nh as i64;
            check!(pk <= allow, "C05/memory", "saving {} fields with threshold {} and limit {:?} held {} bytes (allowed {})", nf, m, s, pk, allow);
            if ended {
                check!(full, "C05/end-not-sticky", "a save after the end of the request was not empty success");
                check!(nf == 0, "C05/end-not-sticky", "a save after the end of the request found {} fields", nf);
            }
            if full {
                probe("save-full");
                ended = true;
            } else {
                probe("save-partial");
            }
        }
    }
}

fn cleanup_field(r: SaveResult<SavedData, SavedData>) {
    let d = match r {
        SaveResult::Full(d) | SaveResult::Partial(d, _) => d,
        SaveResult::Error(_) => return,
    };
    if let SavedData::File(p, _) = d {
        let _ = unarmed(|| std::fs::remove_file(p));
    }
}
