//! C13-C16, C20: client requests over a simulated transport.
use super::save::tmp;
use super::*;
use crate::gen::{self, Field, Opts};
use crate::io::*;
use crate::sys::FsPlan;
use crate::{check, vio};
use multipart::client::{lazy, HttpRequest, HttpStream, Multipart, SizedRequest};
use std::io::{self, ErrorKind, Read, Write};
use std::path::PathBuf;

// ---- the simulated transport ------------------------------------------------------------------

#[derive(Debug)]
pub enum ReqErr {
    Io(io::Error),
    Open(ErrorKind),
}
#[derive(Debug)]
pub enum StreamErr {
    Io(io::Error),
    Req(ReqErr),
    Finish(ErrorKind),
}
impl From<io::Error> for ReqErr {
    fn from(e: io::Error) -> Self {
        ReqErr::Io(e)
    }
}
impl From<io::Error> for StreamErr {
    fn from(e: io::Error) -> Self {
        StreamErr::Io(e)
    }
}
impl From<ReqErr> for StreamErr {
    fn from(e: ReqErr) -> Self {
        StreamErr::Req(e)
    }
}
impl ReqErr {
    fn kind(&self) -> ErrorKind {
        match self {
            ReqErr::Io(e) => e.kind(),
            ReqErr::Open(k) => *k,
        }
    }
}
impl StreamErr {
    fn kind(&self) -> ErrorKind {
        match self {
            StreamErr::Io(e) => e.kind(),
            StreamErr::Req(e) => e.kind(),
            StreamErr::Finish(k) => *k,
        }
    }
}

#[derive(Debug, Default)]
pub struct Tr {
    pub headers: Vec<(String, Option<u64>)>,
    pub refuse: bool,
    pub open_fail: Option<ErrorKind>,
    pub finish_fail: Option<ErrorKind>,
    pub opens: u32,
    pub finishes: u32,
    pub dropped: bool,
    pub misuse: Option<&'static str>,
    /// kinds of the hard faults that were injected, in order
    pub hard: Vec<ErrorKind>,
}

#[derive(Clone)]
pub struct Transport {
    pub t: Arc<Mutex<Tr>>,
    pub out: SinkH,
}

pub struct SimReq(Transport);
pub struct SimStream(Transport, SimWrite);

pub const TOKEN: u64 = 0x5eed_cafe;

pub fn transport() -> Transport {
    let (_, h) = sink();
    Transport { t: Arc::new(Mutex::new(Tr::default())), out: h }
}

impl Transport {
    pub fn req(&self) -> SimReq {
        SimReq(self.clone())
    }
    pub fn body(&self) -> Vec<u8> {
        lk(&self.out).buf.clone()
    }
    pub fn boundary(&self) -> Option<String> {
        lk(&self.t).headers.last().map(|h| h.0.clone())
    }
    /// hard faults of the transport so far
    fn hard(&self) -> Vec<ErrorKind> {
        lk(&self.t).hard.clone()
    }
}

impl HttpRequest for SimReq {
    type Stream = SimStream;
    type Error = ReqErr;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        let mut t = lk(&self.0.t);
        if t.opens > 0 {
            t.misuse = Some("headers after opening");
        }
        t.headers.push((boundary.to_string(), content_len));
        ev("tr-headers", content_len.map_or(0, |x| x + 1), 0);
        if t.refuse {
            fault("transport:refuses-headers");
        }
        !t.refuse
    }
    fn open_stream(self) -> Result<SimStream, ReqErr> {
        let mut t = lk(&self.0.t);
        if t.headers.is_empty() {
            t.misuse = Some("opened without headers");
        }
        t.opens += 1;
        ev("tr-open", 0, 0);
        if let Some(k) = t.open_fail {
            fault("transport:open-fails");
            t.hard.push(k);
            return Err(ReqErr::Open(k));
        }
        drop(t);
        let w = SimWrite(self.0.out.clone());
        Ok(SimStream(self.0.clone(), w))
    }
}

impl Write for SimStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = self.1.write(b);
        match &r {
            Err(e) if e.kind() != ErrorKind::Interrupted => lk(&self.0.t).hard.push(e.kind()),
            Ok(0) if !b.is_empty() => lk(&self.0.t).hard.push(ErrorKind::WriteZero),
            _ => {}
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.1.flush();
        if let Err(e) = &r {
            lk(&self.0.t).hard.push(e.kind());
        }
        r
    }
}

impl Drop for SimStream {
    fn drop(&mut self) {
        lk(&self.0.t).dropped = true;
    }
}

impl HttpStream for SimStream {
    type Request = SimReq;
    type Response = u64;
    type Error = StreamErr;
    fn finish(self) -> Result<u64, StreamErr> {
        let mut t = lk(&self.0.t);
        t.finishes += 1;
        ev("tr-finish", lk(&self.0.out).buf.len() as u64, 0);
        if let Some(k) = t.finish_fail {
            fault("transport:finish-fails");
            t.hard.push(k);
            return Err(StreamErr::Finish(k));
        }
        Ok(TOKEN)
    }
}

// ---- fields -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Text,
    Stream,
    File,
}

pub struct CField {
    pub want: Field,
    pub kind: Kind,
    pub ctype: Option<String>,
    pub src: SimRead,
    pub h: SrcH,
    pub path: PathBuf,
}

const FILES: &[(&str, &str)] = &[
    ("notes.txt", "text/plain"),
    ("picture.png", "image/png"),
    ("page.html", "text/html"),
    ("noextension", "application/octet-stream"),
    ("r\u{e9}sum\u{e9} 1.txt", "text/plain"),
    ("archive.tar", "application/x-tar"),
];

/// Fields to send; the sources deliver them in drawn pieces.
pub fn cfields(max: usize, max_len: usize, kinds: &[Kind]) -> Vec<CField> {
    let n = match draw(6) {
        0 => 1,
        1 => 0,
        _ => draw(max as u32 + 1) as usize,
    };
    let mut fs: Vec<CField> = (0..n).map(|i| cfield(i, max_len, kinds, None)).collect();
    if max >= 4 && draw(1000) == 999 {
        let n = pick(&[17usize, 33, 65, 129, 256, 257, 300]);
        probe("many-fields");
        for i in fs.len()..n {
            fs.push(cfield(i, 0, kinds, Some(vec![b'a' + (i % 26) as u8; i % 40])));
        }
    }
    fs
}

pub fn cfield(i: usize, max_len: usize, kinds: &[Kind], data: Option<Vec<u8>>) -> CField {
    let kind = pick(kinds);
    let data = data.unwrap_or_else(|| {
        let mut d = gen::data("0123456789abcdef", &Opts { max_len, text: kind == Kind::Text, ..Opts::default() });
        if kind == Kind::Text {
            d = String::from_utf8_lossy(&d).into_owned().into_bytes();
        }
        d
    });
    let name = gen::name(i);
    let mut want = Field { name, filename: None, ctype: None, data };
    let mut ctype = None;
    let mut path = PathBuf::new();
    match kind {
        Kind::Text => {}
        Kind::Stream => {
            want.filename = gen::filename();
            // as the application's `Mime` prints it
            ctype = gen::ctype().map(|c| c.parse::<mime::Mime>().expect("content type").to_string());
            want.ctype = Some(ctype.clone().unwrap_or_else(|| "application/octet-stream".into()));
        }
        Kind::File => {
            let (n, t) = pick(FILES);
            want.filename = Some(n.to_string());
            want.ctype = Some(t.to_string());
            path = tmp().join(format!("in{}", i)).join(n);
            unarmed(|| {
                std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                std::fs::write(&path, &want.data).unwrap();
            });
        }
    }
    let seg = if kind == Kind::Stream { draw_seg(want.data.len(), &[]) } else { Seg::Whole };
    let (src, h) = src(Arc::new(want.data.clone()), seg);
    if kind == Kind::Stream {
        lk(&h).eintr = pick(&[0u32, 0, 3]);
    }
    CField { want, kind, ctype, src, h, path }
}

fn names(fs: &[CField]) -> String {
    fs.iter().map(|f| format!("{:?}:{}[{}]", f.kind, f.want.name, f.want.data.len())).collect::<Vec<_>>().join(" ")
}

/// Puts a named pipe with the data in it in the place of the file.
fn fifo(path: &std::path::Path, data: &[u8]) -> std::fs::File {
    use std::os::unix::ffi::OsStrExt;
    std::fs::remove_file(path).unwrap();
    let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
    let mut w = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
    assert!(data.len() <= 60_000);
    w.write_all(data).unwrap();
    w
}

fn soft_files() {
    let p = FsPlan { read_short: pick(&[0u32, 0, 2, 4]), read_eintr: pick(&[0u32, 0, 3]), ..FsPlan::default() };
    with(|s| s.fs.plan = p);
}

fn mime_of(c: &Option<String>) -> Option<mime::Mime> {
    c.as_ref().map(|c| c.parse().unwrap())
}

/// one field through the streaming interface
pub fn write_one<S: HttpStream>(mp: &mut Multipart<S>, f: &mut CField) -> Result<(), S::Error> {
    match f.kind {
        Kind::Text => mp.write_text(&f.want.name, std::str::from_utf8(&f.want.data).unwrap()).map(|_| ()),
        Kind::Stream => mp.write_stream(&f.want.name, &mut f.src, f.want.filename.as_deref(), mime_of(&f.ctype)).map(|_| ()),
        Kind::File => mp.write_file(&f.want.name, &f.path).map(|_| ()),
    }
}

pub fn add_one<'d>(mp: &mut lazy::Multipart<'static, 'd>, f: &CField) {
    let name = f.want.name.clone();
    match f.kind {
        Kind::Text => {
            mp.add_text(name, String::from_utf8(f.want.data.clone()).unwrap());
        }
        Kind::Stream => {
            mp.add_stream(name, f.src.clone(), f.want.filename.clone(), mime_of(&f.ctype));
        }
        Kind::File => {
            let p: std::borrow::Cow<'d, std::path::Path> = match (draw(3), f.path.to_str()) {
                (0, _) => multipart::client::lazy::IntoCowPath::into_cow_path(f.path.clone()),
                (1, Some(p)) => multipart::client::lazy::IntoCowPath::into_cow_path(p.to_string()),
                _ => std::borrow::Cow::Owned(f.path.clone()),
            };
            mp.add_file(name, p);
        }
    }
}

pub fn legal_boundary(class: &str, b: &str) {
    check!(
        (1..=70).contains(&b.len()) && b.bytes().all(|c| c.is_ascii_alphanumeric() || b"'()+_,-./:=? ".contains(&c)) && !b.ends_with(' '),
        class,
        "{:?} is not a legal boundary",
        b
    );
}

pub fn same_fields(class: &str, got: &[Field], want: &[Field], ordered: bool) {
    check!(got.len() == want.len(), class, "{} fields instead of {}", got.len(), want.len());
    let mut left: Vec<&Field> = got.iter().collect();
    for (i, w) in want.iter().enumerate() {
        let p = if ordered {
            0
        } else {
            match left.iter().position(|g| *g == w) {
                Some(p) => p,
                None => left.iter().position(|g| g.name == w.name).unwrap_or(0),
            }
        };
        let g = left.remove(p);
        check!(
            g.name == w.name && g.filename == w.filename && g.ctype == w.ctype,
            class,
            "field {}: name {:?} filename {:?} type {:?} instead of {:?} {:?} {:?}",
            i,
            g.name,
            g.filename,
            g.ctype,
            w.name,
            w.filename,
            w.ctype
        );
        check!(g.data == w.data, class, "data of field {} ({}): {}", i, w.name, diff(&g.data, &w.data));
    }
}

/// The transmitted body is exactly the given fields.
pub fn check_body(class: &str, body: &[u8], boundary: &str, want: &[Field], ordered: bool) {
    match gen::decode(body, boundary) {
        Err(e) => vio!(class, "the body is not well formed: {}", e),
        Ok(got) => same_fields(class, &got, want, ordered),
    }
}

pub fn wants(fs: &[CField]) -> Vec<Field> {
    fs.iter().map(|f| f.want.clone()).collect()
}

/// Takes a body of any length, keeping its start and its end.
#[derive(Default)]
struct Long {
    start: Vec<u8>,
    end: Vec<u8>,
    len: u64,
    boundary: String,
    finished: bool,
}
impl Write for Long {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = buf.len().min(1000 - self.start.len());
        self.start.extend_from_slice(&buf[..k]);
        let k = buf.len().min(1000);
        self.end.extend_from_slice(&buf[buf.len() - k..]);
        let drop = self.end.len().saturating_sub(1000);
        self.end.drain(..drop);
        self.len += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl HttpRequest for Long {
    type Stream = Long;
    type Error = io::Error;
    fn apply_headers(&mut self, b: &str, _: Option<u64>) -> bool {
        self.boundary = b.into();
        true
    }
    fn open_stream(self) -> io::Result<Long> {
        Ok(self)
    }
}
impl HttpStream for Long {
    type Request = Long;
    type Response = Long;
    type Error = io::Error;
    fn finish(mut self) -> io::Result<Long> {
        self.finished = true;
        Ok(self)
    }
}

/// A stream of more bytes than fit 32 bits is sent like any other.
fn giant(class: &str, lazily: bool) {
    probe("giant");
    let len = (1u64 << 32) + draw(100_000) as u64;
    let mut src = super::save::Giant { head: b"<start>".to_vec(), len, tail: b"<end>".to_vec(), pos: 0 };
    let r = if lazily {
        let mut mp = lazy::Multipart::new();
        mp.add_stream("big", src, Some("f"), None);
        mp.send(Long::default()).map_err(|e| e.error)
    } else {
        Multipart::from_request(Long::default()).and_then(|mut mp| {
            mp.write_stream("big", &mut src, Some("f"), None)?;
            mp.send()
        })
    };
    let got = match r {
        Ok(x) => x,
        Err(e) => vio!(class, "sending {} bytes failed: {:?}", len, e),
    };
    let pos = |hay: &[u8], what: &[u8]| hay.windows(what.len()).position(|w| w == what);
    let (Some(a), Some(z)) = (pos(&got.start, b"<start>x"), pos(&got.end, b"x<end>\r\n--")) else {
        vio!(class, "the body of {} bytes starts with {} and ends with {}", got.len, show(&got.start), show(&got.end))
    };
    let data = got.len - a as u64 - (got.end.len() - z - 6) as u64;
    check!(data == len + 12, class, "{} of {} bytes were sent", data, len + 12);
    let close = format!("\r\n--{}--", got.boundary);
    let tail = &got.end[z + 6..];
    check!(tail == close.as_bytes() || tail == [close.as_bytes(), b"\r\n"].concat(), class, "the body ends with {}", show(tail));
}

// ---- C13 --------------------------------------------------------------------------------------

pub fn c13(_: &Arc<Ctx>) {
    if special() {
        return giant("C13/giant", false);
    }
    let mut fs = cfields(6, 20_000, &[Kind::Text, Kind::Stream, Kind::File]);
    let tr = transport();
    lk(&tr.out).draw_soft();
    soft_files();
    sample(|| format!("streaming: {}", names(&fs)));
    let mut mp = match Multipart::from_request(tr.req()) {
        Ok(m) => m,
        Err(e) => vio!("C13/error", "from_request failed on a healthy transport: {:?}", e),
    };
    {
        let t = lk(&tr.t);
        check!(t.headers.len() == 1 && t.opens == 1, "C13/open", "headers applied {} times, stream opened {} times", t.headers.len(), t.opens);
        check!(t.headers[0].1.is_none(), "C13/length", "a streaming request announced a content length of {:?}", t.headers[0].1);
    }
    let b = tr.boundary().unwrap();
    legal_boundary("C13/boundary", &b);
    for f in fs.iter_mut() {
        if let Err(e) = write_one(&mut mp, f) {
            vio!("C13/error", "writing field {} failed without a fault: {:?}", f.want.name, e);
        }
        check!(lk(&tr.t).finishes == 0, "C13/finish", "the transport was finished before send()");
    }
    match mp.send() {
        Ok(TOKEN) => {}
        Ok(x) => vio!("C13/response", "send() returned {:x} instead of the transport's response", x),
        Err(e) => vio!("C13/error", "send() failed without a fault: {:?}", e),
    }
    {
        let t = lk(&tr.t);
        check!(t.finishes == 1, "C13/finish", "the transport was finished {} times", t.finishes);
        check!(t.misuse.is_none() && t.headers.len() == 1 && t.opens == 1, "C13/open", "{:?}", t.misuse);
    }
    probe("sent");
    check_body("C13/body", &tr.body(), &b, &wants(&fs), true);
    // the request to nowhere
    if draw(16) == 15 {
        nowhere();
    }
}

/// `()` as a request takes everything and sends it nowhere.
fn nowhere() {
    let mut fs = cfields(3, 2000, &[Kind::Text, Kind::Stream, Kind::File]);
    let r = if draw(2) == 0 {
        Multipart::from_request(()).and_then(|mut mp| {
            for f in fs.iter_mut() {
                write_one(&mut mp, f)?;
            }
            mp.send()
        })
    } else {
        Multipart::from_request_sized(()).and_then(|mut mp| {
            for f in fs.iter_mut() {
                write_one(&mut mp, f)?;
            }
            mp.send()
        })
    };
    if let Err(e) = r {
        vio!("C13/error", "a request to nowhere failed without a fault: {:?}", e);
    }
    for f in fs.iter().filter(|f| f.kind == Kind::Stream) {
        let s = lk(&f.h);
        check!(s.pos == f.want.data.len(), "C13/body", "{} of {} bytes of a stream were taken", s.pos, f.want.data.len());
    }
    probe("nowhere");
}

// ---- C14 --------------------------------------------------------------------------------------

const TKINDS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionAborted,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

fn hard_transport(tr: &Transport, total: usize) {
    match draw(8) {
        0 => {
            lk(&tr.t).refuse = true;
        }
        1 => {
            let k = pick(TKINDS);
            lk(&tr.t).open_fail = Some(k);
        }
        2 => {
            let k = pick(TKINDS);
            lk(&tr.t).finish_fail = Some(k);
        }
        3 => {}
        _ => {
            let at = match draw(3) {
                0 => draw(200) as usize,
                _ => draw(total as u32 + 1) as usize,
            };
            let bad = if draw(6) == 0 { WBad::Zero } else { WBad::Err(pick(TKINDS)) };
            let left = pick(&[1u32, 1, 2, u32::MAX]);
            lk(&tr.out).fail = Some((at, bad, left));
        }
    }
}

/// hard faults of the sources
fn hard_sources(fs: &mut [CField]) {
    if fs.is_empty() {
        return;
    }
    let i = draw(fs.len() as u32) as usize;
    let f = &mut fs[i];
    match f.kind {
        Kind::Text => {}
        Kind::Stream => {
            let p = draw(f.want.data.len() as u32 + 1) as usize;
            let mut s = lk(&f.h);
            match draw(3) {
                0 => {
                    s.stop = p;
                    s.end = End::Err(pick(TKINDS));
                }
                _ => s.faults.push(SrcFault { pos: p, kind: pick(TKINDS), left: 1 }),
            }
        }
        Kind::File if !unarmed(|| f.path.is_file()) => {}
        Kind::File => match draw(4) {
            0 => unarmed(|| {
                std::fs::remove_file(&f.path).unwrap();
                f.path.set_extension("gone");
            }),
            1 => unarmed(|| {
                std::fs::remove_file(&f.path).unwrap();
                std::fs::create_dir(&f.path).unwrap();
            }),
            2 => {
                let n = 1 + draw(3);
                with(|s| s.fs.plan.read.push((n, libc::EIO)))
            }
            _ => {
                let e = pick(&[libc::EMFILE, libc::EACCES, libc::ENOENT]);
                with(|s| s.fs.plan.open_read.push((1, e)))
            }
        },
    }
}

struct Watch {
    tr: usize,
    fs: usize,
    src: Vec<u64>,
}

/// hard faults injected since `w` was taken
fn watch(tr: &Transport, fs: &[CField]) -> Watch {
    Watch { tr: tr.hard().len(), fs: with(|s| s.fs.hard.len()), src: fs.iter().map(|f| hard_errors(&f.h)).collect() }
}
fn hard_errors(h: &SrcH) -> u64 {
    lk(h).last_err.is_some() as u64
}
fn since(w: &Watch, tr: &Transport, fs: &[CField]) -> Vec<ErrorKind> {
    let mut v: Vec<ErrorKind> = tr.hard()[w.tr..].to_vec();
    v.extend(with(|s| s.fs.hard[w.fs..].to_vec()).into_iter().map(|e| io::Error::from_raw_os_error(e).kind()));
    for (f, n) in fs.iter().zip(&w.src) {
        let s = lk(&f.h);
        if s.last_err.is_some() && *n == 0 {
            v.push(s.last_err.unwrap());
        }
    }
    v
}

fn unusable(f: &CField) -> Option<ErrorKind> {
    if f.kind != Kind::File {
        return None;
    }
    unarmed(|| match std::fs::metadata(&f.path) {
        Err(e) => Some(e.kind()),
        Ok(m) if m.is_dir() => Some(ErrorKind::IsADirectory),
        Ok(_) => None,
    })
}

pub fn c14(_: &Arc<Ctx>) {
    let mode = draw(3);
    let mut fs = cfields(5, 12_000, &[Kind::Text, Kind::Stream, Kind::File]);
    let tr = transport();
    lk(&tr.out).draw_soft();
    soft_files();
    let total: usize = fs.iter().map(|f| f.want.data.len() + 120).sum();
    if draw(2) == 0 {
        hard_transport(&tr, total);
    } else {
        hard_sources(&mut fs);
        if draw(3) == 0 {
            hard_sources(&mut fs);
        }
    }
    sample(|| format!("mode {}: {}, {:?}", mode, names(&fs), lk(&tr.t)));
    let mut ok: Vec<Field> = Vec::new();
    let sent: Result<u64, ErrorKind> = match mode {
        0 => match Multipart::from_request(tr.req()) {
            Err(e) => return from_request_failed(&tr, e.kind()),
            Ok(mp) => c14_stream(mp, &mut fs, &tr, &mut ok),
        },
        1 => match Multipart::from_request_sized(tr.req()) {
            Err(e) => return from_request_failed(&tr, e.kind()),
            Ok(mp) => c14_stream(mp, &mut fs, &tr, &mut ok),
        },
        _ => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
                ok.push(f.want.clone());
            }
            let w = watch(&tr, &fs);
            let bad: Vec<ErrorKind> = fs.iter().filter_map(unusable).collect();
            let mut unnamed = false;
            let r = mp.send(tr.req()).map_err(|e| {
                unnamed = e.field_name.is_none();
                if let Some(n) = &e.field_name {
                    let k = e.error.kind();
                    let opened = with(|s| s.fs.hard.iter().any(|x| io::Error::from_raw_os_error(*x).kind() == k));
                    check!(
                        fs.iter().any(|f| f.want.name == *n && (unusable(f) == Some(k) || f.kind == Kind::File && opened || hard_errors(&f.h) > 0)),
                        "C14/blamed",
                        "{:?} is blamed for {:?}",
                        n,
                        k
                    );
                    probe("field-named");
                }
                e.error.kind()
            });
            let mut inj = since(&w, &tr, &fs);
            if let Err(k) = &r {
                if bad.contains(k) {
                    check!(!unnamed || inj.contains(k) || *k == ErrorKind::IsADirectory, "C14/blamed", "{:?} of a file that cannot be sent is blamed for no field", k);
                    inj.insert(0, *k);
                }
            }
            judge("send()", &r.map(|_| ()), &inj, &tr, false);
            check!(bad.is_empty() || r.is_err(), "C14/hidden", "send() succeeded although a file could not be read ({:?})", bad);
            r
        }
    };
    let t = lk(&tr.t);
    let body = tr.body();
    check!(t.misuse.is_none(), "C14/misuse", "{:?}", t.misuse);
    if t.refuse {
        check!(sent.is_err(), "C14/refused", "send() succeeded although the transport refused the headers");
        check!(t.opens == 0 && body.is_empty() && t.finishes == 0, "C14/refused", "a transport that refused the headers was opened {} times and got {} bytes", t.opens, body.len());
        return;
    }
    check!(t.finishes <= 1, "C14/finish", "the transport was finished {} times", t.finishes);
    let Some((b, len)) = t.headers.last().cloned() else {
        check!(sent.is_err(), "C14/headers", "success without applying headers");
        return;
    };
    match sent {
        Ok(tok) => {
            check!(tok == TOKEN && t.finishes == 1 && t.finish_fail.is_none(), "C14/response", "send() returned {:x}, finished {} times", tok, t.finishes);
            probe("sent");
            check_body("C14/body", &body, &b, &ok, mode != 2);
            check!(len.map_or(true, |l| l == body.len() as u64), "C14/length", "announced {:?}, sent {}", len, body.len());
        }
        Err(_) => {
            probe("failed");
            // nothing truncated may look complete
            if let Ok(got) = gen::decode(&body, &b) {
                same_fields("C14/truncated", &got, &ok, mode != 2);
            }
            check!(t.finishes == 0 || t.finish_fail.is_some() || gen::decode(&body, &b).is_ok(), "C14/finished", "an incomplete body was finished as if it were complete");
        }
    }
}

fn from_request_failed(tr: &Transport, k: ErrorKind) {
    let t = lk(&tr.t);
    if t.refuse {
        check!(t.opens == 0 && tr.body().is_empty(), "C14/refused", "a transport that refused the headers was opened");
        probe("refused");
        return;
    }
    match t.open_fail {
        Some(o) if t.opens > 0 => check!(o == k, "C14/kind", "opening failed with {:?}, reported as {:?}", o, k),
        _ => vio!("C14/invented", "from_request failed with {:?} although the transport did not", k),
    }
    probe("open-failed");
}

/// The result of one call, given the hard faults injected while it ran.
fn judge(what: &str, r: &Result<(), ErrorKind>, inj: &[ErrorKind], tr: &Transport, earlier: bool) {
    match r {
        Ok(()) => check!(inj.is_empty(), "C14/hidden", "{} succeeded although {:?} was met", what, inj),
        Err(k) => {
            check!(*k != ErrorKind::Interrupted, "C14/interrupted", "{} was interrupted and not retried", what);
            if earlier || lk(&tr.t).refuse {
                return;
            }
            check!(!inj.is_empty(), "C14/invented", "{} failed with {:?} although nothing else did", what, k);
            check!(inj.contains(k), "C14/kind", "{} met {:?} but reported {:?}", what, inj, k);
        }
    }
}

fn c14_stream<S>(mut mp: Multipart<S>, fs: &mut [CField], tr: &Transport, ok: &mut Vec<Field>) -> Result<u64, ErrorKind>
where
    S: HttpStream<Response = u64, Error = StreamErr>,
{
    let mut failed = false;
    let give_up = draw(3) == 0;
    for i in 0..fs.len() {
        let w = watch(tr, fs);
        let bad = unusable(&fs[i]);
        let r = write_one(&mut mp, &mut fs[i]).map_err(|e| e.kind());
        let mut inj = since(&w, tr, fs);
        if let Some(k) = bad {
            if !failed {
                inj.push(k);
            }
        }
        judge(&format!("writing field {}", i), &r, &inj, tr, failed);
        match r {
            Ok(()) => ok.push(fs[i].want.clone()),
            Err(_) => {
                failed = true;
                probe("write-failed");
                if give_up {
                    break;
                }
                // perhaps the transport recovers
                if draw(2) == 0 {
                    lk(&tr.out).fail = None;
                }
            }
        }
    }
    if draw(8) == 7 {
        drop(mp);
        return Err(ErrorKind::Other);
    }
    let w = watch(tr, fs);
    let r = mp.send().map_err(|e| e.kind());
    let inj = since(&w, tr, fs);
    judge("send()", &r.map(|_| ()), &inj, tr, failed);
    r
}

// ---- C15 --------------------------------------------------------------------------------------

/// The announced length of a request with a file of more bytes than fit 32 bits; the file is sparse.
fn c15_giant() {
    let size = (1u64 << 32) * (1 + draw(3) as u64) + draw(1000) as u64 - draw(1000) as u64;
    let path = super::save::tmp().join("sparse.bin");
    if unarmed(|| std::fs::File::create(&path).and_then(|f| f.set_len(size))).is_err() {
        return;
    }
    probe("giant");
    let text = "t".repeat(draw(100) as usize);
    let mut mp = lazy::Multipart::new();
    if draw(2) == 0 {
        mp.add_text("a", text.as_str()).add_file("big", &*path);
    } else {
        mp.add_file("big", &*path).add_text("a", text.as_str());
    }
    let mut p = match mp.prepare() {
        Ok(p) => p,
        Err(e) => vio!("C15/error", "prepare() failed: {:?}", e),
    };
    let b = p.boundary().to_string();
    let Some(got) = p.content_len() else { vio!("C15/announced", "no length for a file of {} bytes", size) };
    // everything up to the file's data
    let mut head = Vec::new();
    let at = loop {
        let mut buf = [0xAA; 700];
        match p.read(&mut buf) {
            Ok(0) => vio!("C15/body", "the body ends before the data of the file: {}", show(&head)),
            Ok(k) => head.extend_from_slice(&buf[..k]),
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(e) => vio!("C15/error", "reading failed: {:?}", e),
        }
        if let Some(at) = head.iter().position(|&c| c == 0) {
            break at as u64;
        }
    };
    let end = (b.len() + 6) as u64;
    // text fields may come after the file, and the closing line may have a line end
    let rest = got.wrapping_sub(at).wrapping_sub(size);
    let room = if head[..at as usize].windows(8).any(|w| w == b"name=\"a\"") { 2 } else { 400 + text.len() as u64 };
    check!(rest >= end && rest <= end + room, "C15/length", "announced {} bytes for {} before a file of {} bytes", got, at, size);
}

pub fn c15(_: &Arc<Ctx>) {
    if special() {
        return giant("C15/giant", true);
    }
    if draw(300) == 299 {
        return c15_giant();
    }
    let kinds: &[Kind] = match draw(4) {
        0 => &[Kind::Text],
        1 => &[Kind::Text, Kind::File],
        2 => &[Kind::Stream, Kind::File],
        _ => &[Kind::Text, Kind::Stream, Kind::File],
    };
    let fs = cfields(6, 15_000, kinds);
    soft_files();
    for f in &fs {
        if f.kind == Kind::Stream && draw(2) == 0 {
            for _ in 0..1 + draw(3) {
                let p = draw_pos(f.want.data.len(), &[]);
                lk(&f.h).faults.push(SrcFault { pos: p, kind: pick(TKINDS), left: 1 + draw(2) });
            }
        }
    }
    if draw(3) == 0 {
        let n = 1 + draw(6);
        with(|s| s.fs.plan.read.push((n, libc::EIO)));
    }
    sample(|| format!("lazy: {}", names(&fs)));
    let mut mp = lazy::Multipart::new();
    let held: Vec<usize> = fs.iter().map(|f| Arc::strong_count(&f.h)).collect();
    let open = with(|s| s.fs.fds.len());
    for f in &fs {
        add_one(&mut mp, f);
    }
    // a path need not be that of a regular file
    let on_disk: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].kind == Kind::File).collect();
    let pipe = if !on_disk.is_empty() && draw(8) == 7 { Some(pick(&on_disk)).filter(|i| fs[*i].want.data.len() < 60_000) } else { None };
    let feed = pipe.map(|i| unarmed(|| fifo(&fs[i].path, &fs[i].want.data)));
    let mut p = match mp.prepare() {
        Ok(p) => p,
        Err(e) => vio!("C15/error", "prepare() failed: {:?}", e),
    };
    if feed.is_some() {
        probe("named-pipe");
    }
    // no more data for the pipe
    unarmed(|| drop(feed));
    let streams = pipe.is_some() || fs.iter().any(|f| f.kind == Kind::Stream);
    let announced = p.content_len();
    check!(announced.is_some() == !streams, "C15/announced", "content_len() is {:?} and there are {} streams", announced, if streams { "some" } else { "no" });
    let b = p.boundary().to_string();
    legal_boundary("C15/boundary", &b);
    // someone else changes a file after its length was measured
    let on_disk: Vec<usize> = on_disk.into_iter().filter(|i| pipe != Some(*i)).collect();
    let mut change = if !on_disk.is_empty() && draw(5) == 0 {
        let i = pick(&on_disk);
        let at = pick(&[0u32, 0, 1, 3, 10]);
        let grow = draw(2) == 0;
        Some((at, i, if grow { fs[i].want.data.len() + 1 + draw(20_000) as usize } else { draw(fs[i].want.data.len() as u32 + 1) as usize }))
    } else {
        None
    };
    let mut shrunk = false;
    let mut changed = false;
    let mut in_a_row = 0;
    let style = draw(5);
    let fixed = pick(&[1usize, 2, 3, 7, 64, 1000, 8192, 65536]);
    let mut body = Vec::new();
    let limit = 4 * fs.iter().map(|f| f.want.data.len() + 300).sum::<usize>() + 2000;
    let mut calls = 0;
    let mut small = 300;
    loop {
        calls += 1;
        check!(calls < limit, "C15/spin", "no end of the body after {} reads", calls);
        let mut n = match style {
            0 => 8192,
            1 => fixed,
            2 => 1 + draw(16) as usize,
            3 => 1 + draw(4000) as usize,
            _ => pick(&[1usize, 5, 100, 8191, 8192, 20_000]),
        };
        if n < 64 {
            if small == 0 {
                n = 4096;
            } else {
                small -= 1;
            }
        }
        if draw(20) == 19 {
            match p.read(&mut []) {
                Ok(0) => {}
                r => vio!("C15/empty-read", "a read into an empty buffer gave {:?}", r),
            }
        }
        if let Some((at, i, len)) = change {
            if calls > at as usize {
                let was = fs[i].want.data.len();
                note(|| format!("{} grows or shrinks from {} to {}", fs[i].want.name, was, len));
                fault(if len > was { "file:grows" } else { "file:shrinks" });
                changed = true;
                shrunk |= len < was;
                unarmed(|| {
                    let mut d = fs[i].want.data.clone();
                    d.resize(len, b'+');
                    if len < was {
                        std::fs::OpenOptions::new().write(true).open(&fs[i].path).unwrap().set_len(len as u64).unwrap();
                    } else {
                        std::fs::OpenOptions::new().append(true).open(&fs[i].path).unwrap().write_all(&d[was..]).unwrap();
                    }
                });
                change = None;
            }
        }
        let mut buf = vec![0xAA; n];
        let tw: Vec<u64> = fs.iter().map(|f| lk(&f.h).errors).collect();
        let fw = with(|s| s.fs.hard.len());
        let how = if draw(4) == 3 { 1 + draw(4) } else { 0 };
        if how > 0 {
            probe("read-otherwise");
        }
        let r = if how == 0 { p.read(&mut buf) } else { super::read_some(&mut p, if how == 4 { n.min(200) } else { n }, how, &mut body) };
        match r {
            Ok(0) => break,
            Ok(_) if how > 0 => in_a_row = 0,
            Ok(k) => {
                check!(k <= n, "C15/count", "read {} bytes into a buffer of {}", k, n);
                check!(buf[k..].iter().all(|&c| c == 0xAA) || style == 1, "C15/beyond", "bytes beyond the reported {} were touched", k);
                body.extend_from_slice(&buf[..k]);
                in_a_row = 0;
            }
            Err(e) if shrunk && e.kind() == ErrorKind::UnexpectedEof => {
                // what is missing cannot be made up for
                probe("file-shrunk");
                in_a_row += 1;
                if in_a_row == 3 {
                    return;
                }
            }
            Err(e) => {
                let met = fs.iter().zip(&tw).any(|(f, n)| lk(&f.h).errors > *n) || with(|s| s.fs.hard.len() > fw) || e.kind() == ErrorKind::Interrupted;
                check!(met, "C15/invented", "read failed with {:?} although no source did", e);
                probe("source-failed");
                // std's own helpers retry interruptions, another source may fail afterwards
                let failed: Vec<_> = fs.iter().zip(&tw).filter(|(f, n)| lk(&f.h).errors > **n).map(|x| lk(&x.0.h).last_err).collect();
                let other = how > 0 && with(|s| s.fs.hard.len() > fw);
                check!(
                    failed.is_empty() || other || e.kind() == ErrorKind::Interrupted || failed.contains(&Some(e.kind())),
                    "C15/kind",
                    "the sources failed with {:?}, read with {:?}",
                    failed,
                    e
                );
            }
        }
    }
    // every source is let go when it is exhausted, as documented
    for (f, n) in fs.iter().zip(&held) {
        check!(Arc::strong_count(&f.h) <= *n, "C15/kept", "the stream of {} is still held at the end of the body", f.want.name);
    }
    check!(with(|s| s.fs.fds.len()) <= open, "C15/kept", "a file is still open at the end of the body");
    for _ in 0..2 {
        match p.read(&mut [0; 10]) {
            Ok(0) => {}
            r => vio!("C15/after-end", "a read after the end gave {:?}", r),
        }
    }
    check!(p.boundary() == b, "C15/boundary", "the boundary changed from {:?} to {:?}", b, p.boundary());
    if changed && announced.is_none() {
        // nothing was announced that the file could contradict
        return;
    }
    check_body("C15/body", &body, &b, &wants(&fs), false);
    if changed {
        probe("file-changed");
    }
    if let Some(l) = announced {
        check!(l == body.len() as u64, "C15/length", "content_len() was {} but the body has {} bytes", l, body.len());
        probe("length-announced");
    }
    drop(p);
    // the request can be used again, with a new boundary
    if draw(4) == 0 {
        let g = cfields(3, 2000, &[Kind::Text]);
        for f in &g {
            add_one(&mut mp, f);
        }
        let tr = transport();
        lk(&tr.out).draw_soft();
        match mp.send(tr.req()) {
            Ok(TOKEN) => {}
            Ok(x) => vio!("C15/response", "send() returned {:x}", x),
            Err(e) => vio!("C15/error", "send() failed without a fault: {:?}", e),
        }
        let body = tr.body();
        let (b2, l2) = lk(&tr.t).headers.last().cloned().unwrap();
        check_body("C15/again", &body, &b2, &wants(&g), false);
        check!(l2 == Some(body.len() as u64), "C15/length", "announced {:?} for a body of {} bytes", l2, body.len());
        check!(b2 != b, "C15/boundary", "the boundary was used again");
        probe("reused");
    }
}

// ---- C16 --------------------------------------------------------------------------------------

pub fn c16(_: &Arc<Ctx>) {
    let mut fs = cfields(5, 20_000, &[Kind::Text, Kind::Stream, Kind::File]);
    let tr = transport();
    if special() {
        // larger than anything that could be meant for one buffer
        let n = pick(&[1usize << 20, 3_000_000, (1 << 24) + 1, 40_000_000]);
        let mut d = vec![b'x'; n];
        d[n / 2] = b'y';
        let f = cfield(5, n, &[Kind::Text, Kind::Stream, Kind::File], Some(d));
        lk(&f.h).seg = Seg::Random(1 << 20);
        fs.push(f);
        probe("large-body");
    } else {
        lk(&tr.out).draw_soft();
        soft_files();
    }
    let total: usize = fs.iter().map(|f| f.want.data.len() + 120).sum();
    let hard = draw(2) == 1;
    if hard {
        hard_transport(&tr, total);
    }
    sample(|| format!("sized: {}, {:?}", names(&fs), lk(&tr.t)));
    let mp = if draw(2) == 0 {
        Multipart::from_request_sized(tr.req())
    } else {
        Multipart::from_request(SizedRequest::from_request(tr.req()))
    };
    let mut mp = match mp {
        Ok(m) => m,
        Err(e) => vio!("C16/error", "from_request_sized failed: {:?}", e),
    };
    for f in fs.iter_mut() {
        if let Err(e) = write_one(&mut mp, f) {
            vio!("C16/error", "writing a field failed: {:?}", e);
        }
    }
    {
        let t = lk(&tr.t);
        check!(t.opens == 0 && tr.body().is_empty(), "C16/early", "the transport was opened before the request was sent");
    }
    let r = mp.send();
    let t = lk(&tr.t);
    let body = tr.body();
    check!(t.misuse.is_none(), "C16/misuse", "{:?}", t.misuse);
    let failed = t.refuse || !t.hard.is_empty();
    match r {
        Ok(x) => {
            check!(!failed, "C16/hidden", "send() succeeded although the transport failed: {:?}", t.hard);
            check!(x == TOKEN && t.finishes == 1 && t.opens == 1, "C16/finish", "finished {} times, opened {} times", t.finishes, t.opens);
            let (b, l) = t.headers.last().cloned().unwrap();
            legal_boundary("C16/boundary", &b);
            check!(l == Some(body.len() as u64), "C16/length", "announced {:?} but transmitted {} bytes", l, body.len());
            check_body("C16/body", &body, &b, &wants(&fs), true);
            probe("sent");
        }
        Err(e) => {
            probe("failed");
            check!(failed, "C16/invented", "send() failed with {:?} although the transport did not", e);
            if t.refuse {
                check!(t.opens == 0, "C16/refused", "opened although the headers were refused");
            } else {
                check!(t.hard.contains(&e.kind()), "C16/kind", "the transport failed with {:?}, send() with {:?}", t.hard, e.kind());
            }
            check!(t.finishes == 0 || t.finish_fail.is_some(), "C16/finish", "finished after a failure");
        }
    }
}

// ---- C20 --------------------------------------------------------------------------------------

fn forge(seen: &[String]) -> Vec<u8> {
    let mut d = Vec::new();
    for _ in 0..1 + draw(3) {
        let b = &seen[draw(seen.len() as u32) as usize];
        match draw(5) {
            0 => d.extend(format!("\r\n--{}--\r\n", b).bytes()),
            1 => d.extend(format!("\r\n--{}\r\nContent-Disposition: form-data; name=\"forged\"\r\n\r\nevil", b).bytes()),
            2 => d.extend(format!("--{}--", b).bytes()),
            3 => d.extend(format!("x\r\n--{}", b).bytes()),
            _ => d.extend(format!("--{}\r\n", b).bytes()),
        }
    }
    d
}

fn fresh(seen: &Mutex<Vec<String>>, b: &str) {
    let mut g = lk(seen);
    for o in g.iter() {
        check!(o != b, "C20/repeated", "two requests share the boundary {:?}", b);
        similar(o, b);
    }
    g.push(b.to_string());
}

/// A request that is refused, fails or is given up; whoever saw its boundary may know the next one otherwise.
fn lost_request(i: usize, seen: &Mutex<Vec<String>>) {
    let mut fs: Vec<CField> = (0..draw(3) as usize).map(|j| cfield(i * 10 + j, 300, &[Kind::Text, Kind::Stream], None)).collect();
    let tr = transport();
    let how = draw(8);
    match draw(4) {
        0 => lk(&tr.t).refuse = true,
        1 => lk(&tr.t).open_fail = Some(pick(TKINDS)),
        2 => lk(&tr.t).finish_fail = Some(pick(TKINDS)),
        _ => lk(&tr.out).fail = Some((draw(400) as usize, WBad::Err(pick(TKINDS)), u32::MAX)),
    }
    fault("transport:lost-request");
    let mut b = None;
    match how {
        0..=2 => {
            if let Ok(mut mp) = Multipart::from_request(tr.req()) {
                let ok = fs.iter_mut().all(|f| write_one(&mut mp, f).is_ok());
                if draw(2) == 1 || !ok {
                    let _ = mp.send();
                }
            }
        }
        3 | 4 => {
            let mut mp = Multipart::from_request_sized(tr.req()).unwrap();
            for f in fs.iter_mut() {
                let _ = write_one(&mut mp, f);
            }
            if draw(4) > 0 {
                let _ = mp.send();
            }
        }
        5 | 6 => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
            }
            let _ = mp.send(tr.req());
        }
        _ => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
            }
            b = Some(mp.prepare().unwrap().boundary().to_string());
        }
    }
    if let Some(b) = b.or(tr.boundary()) {
        probe("lost-request");
        fresh(seen, &b);
    }
}

fn one_request(i: usize, seen: &Arc<Mutex<Vec<String>>>) {
    if chance(1, 3) {
        lost_request(i, seen);
    }
    let n = 1 + draw(3) as usize;
    let mut fs: Vec<CField> = (0..n)
        .map(|j| {
            let known = lk(seen).clone();
            let d = if !known.is_empty() && draw(3) > 0 { Some(forge(&known)) } else { None };
            cfield(i * 10 + j, 600, &[Kind::Text, Kind::Stream], d)
        })
        .collect();
    let tr = transport();
    let (b, body) = match draw(4) {
        0 => {
            let mut mp = Multipart::from_request(tr.req()).unwrap();
            for f in fs.iter_mut() {
                write_one(&mut mp, f).unwrap();
            }
            mp.send().unwrap();
            (tr.boundary().unwrap(), tr.body())
        }
        1 => {
            let mut mp = Multipart::from_request_sized(tr.req()).unwrap();
            for f in fs.iter_mut() {
                write_one(&mut mp, f).unwrap();
            }
            mp.send().unwrap();
            (tr.boundary().unwrap(), tr.body())
        }
        2 => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
            }
            mp.send(tr.req()).unwrap();
            (tr.boundary().unwrap(), tr.body())
        }
        _ => {
            let mut mp = lazy::Multipart::new();
            for f in &fs {
                add_one(&mut mp, f);
            }
            let mut p = mp.prepare().unwrap();
            let mut body = Vec::new();
            while let Err(e) = p.read_to_end(&mut body) {
                check!(e.kind() == ErrorKind::Interrupted, "C20/error", "{:?}", e);
            }
            (p.boundary().to_string(), body)
        }
    };
    fresh(seen, &b);
    // what a server sees
    let (r, h) = src(Arc::new(body.clone()), draw_seg(body.len(), &[]));
    let mut mp = multipart::server::Multipart::with_body(r, &*b);
    let mut got = Vec::new();
    loop {
        match next(&mut mp) {
            Ok(Some(mut f)) => {
                let mut d = Vec::new();
                if let Err(e) = f.data.read_to_end(&mut d) {
                    vio!("C20/server", "reading failed: {}", e);
                }
                got.push(Field {
                    name: f.headers.name.to_string(),
                    filename: f.headers.filename.clone(),
                    ctype: f.headers.content_type.as_ref().map(|c| c.to_string()),
                    data: d,
                });
            }
            Ok(None) => break,
            Err(e) => vio!("C20/server", "the server failed: {}", e),
        }
    }
    let _ = h;
    same_fields("C20/forged", &got, &wants(&fs), false);
}

/// A boundary must not be derivable from another: 16 random characters agree in more than 9 places with
/// a probability below 1e-13.
fn similar(a: &str, b: &str) {
    let n = a.len().min(b.len());
    check!(b.len() >= 10, "C20/guessable", "the boundary {:?} is short enough to be guessed", b);
    let same = a.bytes().zip(b.bytes()).filter(|(x, y)| x == y).count();
    check!(same * 16 <= n * 9, "C20/predictable", "boundaries {:?} and {:?} of different requests agree in {} of {} characters", a, b, same, n);
}

/// What a new process whose random bytes come from `seed` announces; clock, process number and everything else
/// are always the same.
pub fn boundaries(seed: u64) {
    let ctx = Ctx::new(1, None, false, "/nonexistent");
    ctx.lock().entropy_seed = seed;
    let work = |task: usize| {
        let ctx = ctx.clone();
        std::thread::spawn(move || {
            let _e = crate::core::enter(&ctx, task);
            let mut v = Vec::new();
            for _ in 0..3 {
                let tr = transport();
                Multipart::from_request(tr.req()).unwrap().send().unwrap();
                v.push(tr.boundary().unwrap());
                let tr = transport();
                Multipart::from_request_sized(tr.req()).unwrap().send().unwrap();
                v.push(tr.boundary().unwrap());
                v.push(lazy::Multipart::new().prepare().unwrap().boundary().to_string());
            }
            v
        })
        .join()
        .unwrap()
    };
    let v = [work(0), work(1)].concat();
    println!("{}", v.join("\n"));
}

/// Two processes that differ only in what the system gave them as random bytes.
fn predict() {
    let one = |seed: u64| -> Vec<String> {
        let mut c = std::process::Command::new("/proc/self/exe");
        c.arg("boundaries").arg(seed.to_string()).env_clear();
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                // addresses are no secret either
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                Ok(())
            });
        }
        let o = unarmed(|| c.output()).expect("own binary");
        String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect()
    };
    let s = draw(1 << 30) as u64;
    let (a, b) = (one(s), one(s + 1));
    check!(a.len() == 18 && b.len() == 18, "C20/predict", "the processes made {} and {} requests", a.len(), b.len());
    sample(|| format!("boundaries of two processes: {:?} and {:?}", a, b));
    for x in &a {
        for y in &b {
            check!(x != y, "C20/predictable", "two processes with different random bytes both use the boundary {:?}", x);
            similar(x, y);
        }
    }
    fault("process:restarted-with-other-entropy");
    probe("restarted");
    nontrivial();
}

pub fn c20(ctx: &Arc<Ctx>) {
    if special() {
        return predict();
    }
    let seen: Arc<Mutex<Vec<String>>> = Arc::default();
    match draw(16) {
        15 => {
            // many requests
            let mut all = std::collections::HashSet::new();
            let mut mp = lazy::Multipart::new();
            let mut last = String::new();
            for _ in 0..3000 {
                let p = mp.prepare().unwrap();
                let b = p.boundary().to_string();
                similar(&last, &b);
                last = b.clone();
                check!(all.insert(b), "C20/repeated", "two of {} requests share the boundary {:?}", all.len() + 1, last);
            }
            ev("many", all.len() as u64, 0);
            probe("many-requests");
            nontrivial();
        }
        _ => {
            let tasks = 1 + draw(4) as usize;
            let per = 1 + draw(4) as usize;
            sample(|| format!("{} threads, {} requests each", tasks, per));
            probe("threads");
            let mut ts: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
            for t in 0..tasks {
                let seen = seen.clone();
                ts.push(Box::new(move || {
                    for r in 0..per {
                        one_request(t * 100 + r, &seen);
                    }
                }));
            }
            crate::sched::run_all(ctx, ts, 3_000_000);
        }
    }
}
