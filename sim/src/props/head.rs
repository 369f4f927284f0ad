//! C22: headers of fields. C23: which requests are multipart requests.
use super::*;
use super::e2e::Wire;
use crate::gen::{self, Enc, Field, Form, Opts};
use crate::io::*;
use crate::{check, vio};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use hyper::server::{Handler, Request as ServerRequest, Response as ServerResponse};
use multipart::server::hyper::Switch;
use multipart::server::nickel::{nickel, Maybe, MultipartBody};
use multipart::server::Multipart;
use std::io::{ErrorKind, Read, Write};

// ---- C22 --------------------------------------------------------------------------------------

fn token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c))
}

fn case(s: &str) -> String {
    match draw(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_lowercase(),
        _ => s.to_ascii_uppercase(),
    }
}

const VALUES: &[&str] = &[
    "plain",
    "a;b",
    "a; name=b",
    "; name=\u{e9};",
    "x; filename=\u{4e16}",
    "name=q",
    "filename=q",
    "",
    " ",
    "k=v",
    ";",
    "C:\\temp\\x.txt",
    "ends\\",
    "caf\u{e9}",
    "1;2;3;",
    "form-data; name=z",
    "a,b.txt",
    "x=1,y",
    "(1).txt",
    "[0][key]",
    "a/b:c@d?",
    "user{id}",
    "<tag>",
    "it's",
    "100%",
    "a&b+c",
];

fn value() -> String {
    if draw(8) == 7 {
        return gen::spiced(pick(&["report.txt", "a b", "", "x"]));
    }
    match draw(4) {
        0 => "plain.txt".into(),
        1 => match draw(2) {
            0 => pick(&["field", "x", "a-b_c", "file.name", "*"]).to_string(),
            _ => gen::random_text(0),
        },
        _ => pick(VALUES).to_string(),
    }
}

/// one parameter as a client may write it
fn param(key: &str, val: &str) -> String {
    let quoted = !token(val) || draw(3) > 0;
    let k = case(key);
    if quoted {
        format!("{}=\"{}\"", k, val)
    } else {
        format!("{}={}", k, val)
    }
}

fn shuffle<T>(v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = draw(i as u32 + 1) as usize;
        v.swap(i, j);
    }
}

/// Header block of one field; `bad` asks for one that must be refused.
fn block(f: &Field, bad: Option<u32>) -> Vec<u8> {
    let mut ps = vec![param("name", &f.name)];
    if let Some(n) = &f.filename {
        ps.push(param("filename", n));
    }
    for _ in 0..draw(3) {
        let p = match draw(8) {
            7 => pick(&["names=evil", "nam=evil", "name2=evil", "filenamex=\"evil\"", "filename2=evil", "filenam=evil", "name*=utf-8''evil", "na=me", "name*0=evil"]).into(),
            0 => "size=12".to_string(),
            1 => "x=\"a; name=evil\"".into(),
            2 => "filename*=UTF-8''e%20vil".into(),
            3 => "xname=\"evil\"".into(),
            4 => "creation-date=\"Wed, 12 Feb 1997 16:29:51 -0500\"".into(),
            5 => "my-filename=\"evil\"".into(),
            _ => "flag".into(),
        };
        ps.push(p);
    }
    if draw(2) == 1 {
        shuffle(&mut ps);
    }
    let mut kind = pick(&["form-data", "form-data", "form-data", "Form-Data", "form-data "]).to_string();
    match bad {
        Some(0) => {
            ps.retain(|p| !p.to_ascii_lowercase().starts_with("name="));
            ps.push("rename=1".into());
        }
        Some(1) => kind = pick(&["attachment", "inline", "form-dat", "form-data2", "file"]).to_string(),
        Some(2) => ps.clear(),
        _ => {}
    }
    let sep = pick(&["; ", "; ", ";", " ; ", ";  ", ";\t"]);
    let mut cd = kind;
    for p in &ps {
        cd.push_str(sep);
        cd.push_str(p);
    }
    if !ps.is_empty() && draw(6) == 5 {
        cd.push(';');
    }
    let mut lines: Vec<Vec<u8>> = Vec::new();
    let colon = pick(&[": ", ": ", ":", ":  ", ":\t"]);
    if bad != Some(3) {
        lines.push(format!("{}{}{}", case("Content-Disposition"), colon, cd).into_bytes());
    }
    if let Some(c) = &f.ctype {
        lines.push(format!("{}{}{}", case("Content-Type"), colon, c).into_bytes());
    }
    if bad == Some(4) {
        lines.retain(|l| !l.to_ascii_lowercase().starts_with(b"content-type"));
        lines.push(format!("Content-Type: {}", pick(&["text", "te xt/plain", "text plain"])).into_bytes());
    }
    if bad == Some(5) {
        lines[0].extend_from_slice(pick(&[&b"; x=\"\xff\""[..], b"; x=\"\xc3\"", b"; x=\"\xed\xa0\x80\""]));
    }
    while lines.len() < 4 && draw(3) == 2 {
        lines.push(
            pick(&[
                "Content-Transfer-Encoding: binary",
                "X-Name: name=\"evil\"",
                "X-Content-Disposition: form-data; name=\"evil\"",
                "Content-Length: 3",
                "X-Content-Type: image/png",
                "Content-Disposition2: form-data; name=\"evil\"",
                "Content-Dispositio: form-data; name=\"evil\"",
                "Content-Type-Options: image/gif",
                "Content-Typ: image/gif",
                "Content: x",
                "Empty:",
            ])
            .as_bytes()
            .to_vec(),
        );
    }
    if lines.len() < 4 && draw(6) == 5 {
        // up to what fits a header buffer
        let have: usize = lines.iter().map(|l| l.len() + 2).sum();
        let room = 7800usize.saturating_sub(have) as u32;
        let n = pick(&[room, 4200.min(room), 1000.min(room)]);
        let n = n / 2 + draw(n / 2 + 1);
        lines.push(format!("X-Long: {}", "name=\"evil\"; ".repeat(n as usize / 13)).into_bytes());
        probe("long");
    }
    if draw(2) == 1 {
        shuffle(&mut lines);
    }
    let mut b = Vec::new();
    for l in lines {
        b.extend_from_slice(&l);
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    b
}

pub fn c22(_: &Arc<Ctx>) {
    let boundary = gen::boundary();
    let n = 1 + draw(4) as usize;
    let bad = if draw(5) == 4 { Some((draw(n as u32) as usize, draw(6))) } else { None };
    let mut b = Vec::new();
    let mut marks = vec![0];
    let mut fields = Vec::new();
    let delim = format!("--{}", boundary);
    for i in 0..n {
        let f = Field {
            name: value(),
            filename: if draw(2) == 0 { None } else { Some(value()) },
            ctype: gen::ctype(),
            data: gen::data(&boundary, &Opts { max_len: 1500, ..Opts::default() }),
        };
        b.extend_from_slice(delim.as_bytes());
        b.extend_from_slice(b"\r\n");
        let hs = b.len();
        let mut blk = block(&f, bad.filter(|x| x.0 == i).map(|x| x.1));
        // the delimiter search comes before the header parser
        gen::scrub(&mut blk, delim.as_bytes());
        b.extend_from_slice(&blk);
        marks.extend([hs, (hs + b.len()) / 2, b.len() - 2, b.len()]);
        b.extend_from_slice(&f.data);
        b.extend_from_slice(b"\r\n");
        fields.push(f);
    }
    b.extend_from_slice(delim.as_bytes());
    b.extend_from_slice(b"--\r\n");
    let e = Enc { close_end: b.len(), bytes: b, marks, spans: vec![] };
    note(|| show(&e.bytes));
    let (r, h) = seg_src(&e);
    sample(|| format!("{} fields, bad {:?}, {} bytes, {:?}", n, bad, e.bytes.len(), with_src(&h, |s| s.seg.clone())));
    if draw(3) == 0 {
        super::read::draw_faults(&h, &e);
    }
    let mut mp = Multipart::with_body(r, boundary.as_str());
    let mut tries = 0;
    let mut i = 0;
    loop {
        with_src(&h, |s| {
            s.last_err = None;
            if tries > 30 {
                s.heal();
            }
        });
        let retry = |e: &std::io::Error| {
            let k = with_src(&h, |s| s.last_err);
            e.kind() == ErrorKind::Interrupted || k == Some(e.kind())
        };
        match next(&mut mp) {
            Ok(Some(mut f)) => {
                check!(i < n, "C22/extra", "field {} of {}", i + 1, n);
                if let Some((p, k)) = bad {
                    check!(p != i, "C22/accepted", "headers with a defect of kind {} were accepted: {:?}", k, f.headers);
                }
                check_headers("C22/headers", &f.headers, &fields[i]);
                check!(
                    f.is_text() == fields[i].ctype.as_ref().map_or(true, |c| c.to_ascii_lowercase().starts_with("text/")),
                    "C22/is-text",
                    "is_text() is {} for {:?}",
                    f.is_text(),
                    fields[i].ctype
                );
                let mut d = Vec::new();
                while let Err(e) = f.data.read_to_end(&mut d) {
                    tries += 1;
                    if tries > 30 {
                        with_src(&h, |s| s.heal());
                    }
                    check!(retry(&e) && tries < 100, "C22/data-error", "reading the data failed: {}", e);
                }
                check!(d == fields[i].data, "C22/data", "field {}: {}", i, diff(&d, &fields[i].data));
                i += 1;
            }
            Ok(None) => {
                check!(i == n, "C22/early-end", "the request ended after {} of {} fields", i, n);
                probe("all");
                return;
            }
            Err(e) => {
                tries += 1;
                check!(tries < 100, "C22/no-progress", "no progress after the source recovered");
                if retry(&e) {
                    probe("retried");
                    continue;
                }
                match bad {
                    Some((p, _)) if p == i => {
                        check!(e.kind() == ErrorKind::InvalidData, "C22/kind", "defective headers reported as {:?}: {}", e.kind(), e);
                        probe("refused");
                        return;
                    }
                    _ => vio!("C22/error", "the headers of field {} were refused: {}", i, e),
                }
            }
        };
    }
}

// ---- C23 --------------------------------------------------------------------------------------

pub struct Head {
    method: &'static str,
    ctype: Option<String>,
    /// the announced boundary of a multipart/form-data request
    boundary: Option<String>,
}

fn head(boundary: &str) -> Head {
    let method = pick(&["POST", "POST", "POST", "POST", "PUT", "PATCH"]);
    let tok = boundary.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_.".contains(&c));
    let b = if !tok || draw(2) == 0 { format!("\"{}\"", boundary) } else { boundary.to_string() };
    let bkey = case("boundary");
    let mp = draw(2) == 0;
    let ctype = if mp {
        let t = pick(&["multipart/form-data", "multipart/form-data", "Multipart/Form-Data", "MULTIPART/FORM-DATA"]);
        match draw(5) {
            0 | 1 => Some(format!("{}; {}={}", t, bkey, b)),
            2 => Some(format!("{};{}={}", t, bkey, b)),
            3 => Some(format!("{}; charset=utf-8; {}={}", t, bkey, b)),
            _ => Some(format!("{}; {}={}; charset=utf-8", t, bkey, b)),
        }
    } else {
        match draw(11) {
            8 => Some(format!("multipart/form-data-x; boundary={}", b)),
            9 => Some(format!("{}; boundary={}", pick(&["multipart/form", "multipart/form-dat", "multipart/x-form-data", "multiparts/form-data", "multipart/form-database", "x-multipart/form-data"]), b)),
            0 => None,
            1 => Some(format!("multipart/mixed; boundary={}", b)),
            2 => Some(format!("text/plain; boundary={}", b)),
            3 => Some("multipart/form-data".to_string()),
            4 => Some("multipart/form-data; charset=utf-8".to_string()),
            5 => Some("application/x-www-form-urlencoded".to_string()),
            6 => Some(format!("application/form-data; boundary={}", b)),
            7 => Some(format!("multipart/form-data; xboundary={}", b)),
            _ => Some(format!("multipart/related; boundary={}", b)),
        }
    };
    Head { method, ctype, boundary: if mp { Some(boundary.to_string()) } else { None } }
}

fn read_fields<R: Read>(mut mp: Multipart<R>, form: &Form, who: &str) {
    let mut i = 0;
    loop {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                check!(i < form.fields.len(), "C23/extra", "{}: field {} of {}", who, i + 1, form.fields.len());
                check_headers("C23/headers", &f.headers, &form.fields[i]);
                let mut d = Vec::new();
                if let Err(e) = f.data.read_to_end(&mut d) {
                    vio!("C23/data-error", "{}: {}", who, e);
                }
                check!(d == form.fields[i].data, "C23/data", "{}: {}", who, diff(&d, &form.fields[i].data));
                i += 1;
            }
            Ok(None) => break,
            Err(e) => vio!("C23/boundary", "{}: the request cannot be read with the boundary used: {}", who, e),
        }
    }
    check!(i == form.fields.len(), "C23/lost", "{}: {} of {} fields", who, i, form.fields.len());
}

fn unchanged<R: Read>(mut r: R, sent: &[u8], who: &str) {
    let mut got = Vec::new();
    if let Err(e) = r.read_to_end(&mut got) {
        vio!("C23/rest", "{}: the body of the returned request cannot be read: {}", who, e);
    }
    check!(got == sent, "C23/rest", "{}: the body of the returned request: {}", who, diff(&got, sent));
}

struct NormalH(Arc<Vec<u8>>, Arc<Mutex<(u32, u32)>>, &'static str, Option<String>);
impl Handler for NormalH {
    fn handle<'a, 'k>(&'a self, req: ServerRequest<'a, 'k>, res: ServerResponse<'a>) {
        lk(&self.1).0 += 1;
        check!(req.method.as_ref() == self.2, "C23/changed", "the method became {}", req.method);
        check!(req.headers.get_raw("content-type").map(|v| v[0].clone()) == self.3.clone().map(|s| s.into_bytes()), "C23/changed", "the content type changed");
        check!(req.uri.to_string() == "/up?x=1", "C23/changed", "the uri became {}", req.uri);
        unchanged(req, &self.0, "Switch");
        let _ = res.send(b"normal");
    }
}

pub fn c23(_: &Arc<Ctx>) {
    let form = gen::form(&Opts { max_fields: 3, max_len: 3000, mime: true, ..Opts::default() });
    let e = gen::encode(&form);
    let mut form = form;
    let mut body = e.bytes;
    let other = match draw(24) {
        // also the name of a charset
        20 | 21 => Some("utf-8"),
        22 => Some(pick(&["two words", "a b c", "x y=z"])),
        23 => Some(pick(&["US-ASCII", "q", "chunked", "form-data", "boundary"])),
        _ => None,
    };
    if let Some(b) = other {
        let old = form.boundary.clone();
        form.boundary = b.into();
        for f in form.fields.iter_mut() {
            gen::scrub(&mut f.data, format!("--{}", b).as_bytes());
        }
        body = gen::encode(&form).bytes;
        note(|| format!("boundary {:?} replaced", old));
    }
    let hd = head(&form.boundary);
    let mut raw = format!("{} /up?x=1 HTTP/1.1\r\nHost: server.example\r\n", hd.method).into_bytes();
    if let Some(c) = &hd.ctype {
        raw.extend_from_slice(format!("{}: {}\r\n", case("Content-Type"), c).as_bytes());
    }
    let chunked = draw(2) == 1;
    if chunked {
        raw.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
    } else {
        raw.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
    }
    let start = raw.len();
    if chunked {
        for c in body.chunks(1 + draw(2000) as usize) {
            raw.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            raw.extend_from_slice(c);
            raw.extend_from_slice(b"\r\n");
        }
        raw.extend_from_slice(b"0\r\n\r\n");
    } else {
        raw.extend_from_slice(&body);
    }
    let lib = draw(5);
    if lib == 4 {
        return tiny23(raw, start, &hd, &form, &body);
    }
    let seg = draw_seg(raw.len(), &[0, start / 2, start, raw.len()]);
    let (src, h) = src(Arc::new(raw), seg);
    with_src(&h, |s| s.budget = 200_000 + 20 * s.data.len() as u64);
    sample(|| format!("library {}, {} {:?}", lib, hd.method, hd.ctype));
    note(|| format!("{} {:?} boundary {:?}", hd.method, hd.ctype, form.boundary));
    let post = hd.method == "POST";
    // documented for hyper; the others may or may not take other methods
    let expect = match (&hd.boundary, lib) {
        (None, _) => Some(false),
        (Some(_), 0 | 1) => Some(post),
        (Some(_), _) if post => Some(true),
        _ => None,
    };
    let mut wire = Wire(src, Vec::new());
    let mut out = Vec::new();
    let taken;
    {
        let mut rdr = BufReader::new(&mut wire as &mut dyn NetworkStream);
        let mut req = match ServerRequest::new(&mut rdr, crate::net::addr()) {
            Ok(q) => q,
            Err(e) => vio!("C23/head", "hyper could not read the head: {:?}", e),
        };
        match lib {
            0 => {
                if draw(2) == 0 {
                    taken = match Multipart::from_request(req) {
                        Ok(mp) => {
                            read_fields(mp, &form, "hyper");
                            true
                        }
                        Err(r) => {
                            unchanged(r, &body, "hyper");
                            false
                        }
                    };
                } else {
                    taken = match Multipart::from_request(&mut req) {
                        Ok(mp) => {
                            read_fields(mp, &form, "&mut hyper");
                            true
                        }
                        Err(r) => {
                            unchanged(r, &body, "&mut hyper");
                            false
                        }
                    };
                }
            }
            1 => {
                let calls: Arc<Mutex<(u32, u32)>> = Arc::default();
                let normal = NormalH(Arc::new(body.clone()), calls.clone(), hd.method, hd.ctype.clone());
                let (c2, f2) = (calls.clone(), form.clone());
                let sw = Switch::new(normal, move |mp: Multipart<ServerRequest>, res: ServerResponse| {
                    lk(&c2).1 += 1;
                    read_fields(mp, &f2, "Switch");
                    let _ = res.send(b"multi");
                });
                let mut headers = hyper::header::Headers::new();
                let mut w = CountWriter(&mut out);
                let res = ServerResponse::new(&mut w, &mut headers);
                sw.handle(req, res);
                let (a, b) = *lk(&calls);
                check!(a + b == 1, "C23/handlers", "{} calls of the normal and {} of the multipart handler", a, b);
                taken = b == 1;
            }
            2 => match iron::Request::from_http(req, crate::net::addr(), &iron::Protocol::http()) {
                Ok(mut req) => {
                    let got = match Multipart::from_request(&mut req) {
                        Ok(mp) => {
                            read_fields(mp, &form, "iron");
                            true
                        }
                        Err(_) => false,
                    };
                    if !got {
                        unchanged(&mut req.body, &body, "iron");
                    }
                    taken = got;
                }
                Err(e) => vio!("C23/iron", "iron refused the request: {}", e),
            },
            _ => {
                let mut req = nickel::Request::from_internal(req, &());
                let got = if draw(2) == 0 {
                    match req.multipart_body() {
                        Some(mp) => {
                            read_fields(mp, &form, "nickel");
                            true
                        }
                        None => false,
                    }
                } else {
                    match Multipart::from_request(Maybe(&mut req)) {
                        Ok(mp) => {
                            read_fields(mp, &form, "nickel");
                            true
                        }
                        Err(_) => false,
                    }
                };
                if !got {
                    unchanged(&mut req.origin, &body, "nickel");
                }
                taken = got;
            }
        }
    }
    if let Some(x) = expect {
        check!(taken == x, "C23/taken", "{} request with content type {:?} was {}taken as multipart", hd.method, hd.ctype, if taken { "" } else { "not " });
    }
    probe(if taken { "taken" } else { "returned" });
}

/// How the bytes after the head arrive at a tiny_http server.
pub fn tiny_plan(head: usize, len: usize) -> crate::tiny::Plan {
    let mut p = crate::tiny::Plan { head, ..Default::default() };
    let max = pick(&[0u32, 0, 1, 7, 100, 1500]);
    if max > 0 {
        nontrivial();
        for _ in 0..(len - head).min(400) {
            p.cuts.push_back(1 + draw(max) as usize);
        }
    }
    p
}

/// tiny_http, on a simulated socket
fn tiny23(mut raw: Vec<u8>, start: usize, hd: &Head, form: &Form, body: &[u8]) {
    // more headers, in front of the empty line
    let mut extra = Vec::new();
    let close = draw(2) == 0;
    if close {
        extra.extend_from_slice(b"Connection: close\r\n");
    }
    let expect = draw(6) == 0;
    if expect {
        extra.extend_from_slice(b"Expect: 100-continue\r\n");
    }
    raw.splice(start - 2..start - 2, extra.iter().copied());
    let start = start + extra.len();
    let plan = tiny_plan(start, raw.len());
    sample(|| format!("tiny_http, {} {:?}, {} pieces", hd.method, hd.ctype, plan.cuts.len()));
    note(|| format!("tiny_http: {} {:?} boundary {:?}", hd.method, hd.ctype, form.boundary));
    let Some(mut t) = crate::tiny::Tiny::new(raw, plan) else { vio!("C23/head", "tiny_http did not take the request") };
    let taken;
    {
        let req = t.req.as_mut().unwrap();
        let got = match Multipart::from_request(&mut *req) {
            Ok(mp) => {
                read_fields(mp, form, "tiny_http");
                true
            }
            Err(req) => {
                unchanged(req.as_reader(), body, "tiny_http");
                false
            }
        };
        check!(req.url() == "/up?x=1" && req.method().to_string() == hd.method, "C23/changed", "{} {}", req.method(), req.url());
        taken = got;
    }
    ev("tiny", taken as u64, close as u64);
    let out = t.finish();
    check!(out.starts_with(b"HTTP/1.1 "), "C23/response", "tiny_http answered {}", show(&out));
    if hd.boundary.is_none() || hd.method == "POST" {
        check!(taken == hd.boundary.is_some(), "C23/taken", "{} request with content type {:?} was {}taken as multipart", hd.method, hd.ctype, if taken { "" } else { "not " });
    }
    probe(if taken { "tiny-taken" } else { "tiny-returned" });
}

struct CountWriter<'a>(&'a mut Vec<u8>);
impl<'a> Write for CountWriter<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
