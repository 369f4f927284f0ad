//! C17: client and server over a simulated connection. C18: the Iron interceptor.
use super::client::{add_one, cfields, same_fields, CField, Kind};
use super::save::tmp;
use super::*;
use crate::gen::{self, Field, Opts};
use crate::io::*;
use crate::net::{self, Cut, Sock};
use crate::sys::{FsPlan, WFault};
use crate::{check, vio};
use hyper::buffer::BufReader;
use hyper::client::{Client, Request as ClientRequest};
use hyper::method::Method;
use hyper::net::NetworkStream;
use hyper::server::{Handler, Request as ServerRequest, Response as ServerResponse};
use hyper::status::StatusCode;
use iron::BeforeMiddleware;
use multipart::client::{lazy, Multipart as ClientMultipart};
use multipart::server::hyper::Switch;
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::nickel::{nickel, Maybe, MultipartBody};
use multipart::server::save::{SaveResult, SavedData};
use multipart::server::{Entries, Multipart};
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::path::PathBuf;
use std::time::Duration;

// as documented
const DEFAULT_FILE_SIZE_LIMIT: u64 = 2 * 1024 * 1024;
const DEFAULT_FILE_COUNT_LIMIT: u32 = 16;

#[derive(Debug, Clone)]
enum Seen {
    Nothing,
    NotMultipart,
    Complete(Vec<Field>),
    Failed(String),
}

struct Server {
    seen: Seen,
    /// the server has begun to write its answer
    answered: bool,
    /// the announced length and whether the body came in chunks
    head: Option<(Option<u64>, bool)>,
}

type ServerH = Arc<Mutex<Server>>;

fn field_of(h: &multipart::server::FieldHeaders, data: Vec<u8>) -> Field {
    Field { name: h.name.to_string(), filename: h.filename.clone(), ctype: h.content_type.as_ref().map(|c| c.to_string()), data }
}

/// The application: take everything of the request in a drawn way.
fn take_all<R: Read>(mut mp: Multipart<R>) -> Result<Vec<Field>, String> {
    let mut out = Vec::new();
    match draw(4) {
        0 | 1 => loop {
            let mut f = match nextr(&mut mp) {
                Ok(Some(f)) => f,
                Ok(None) => break,
                Err(e) => return Err(format!("{:?}", e)),
            };
            let mut d = Vec::new();
            if let Err(e) = f.data.read_to_end(&mut d) {
                return Err(format!("{:?}", e));
            }
            out.push(field_of(&f.headers, d));
        },
        2 => loop {
            let mut f = match nextr(&mut mp) {
                Ok(Some(f)) => f,
                Ok(None) => break,
                Err(e) => return Err(format!("{:?}", e)),
            };
            let mut d = Vec::new();
            loop {
                let n = match f.data.fill_buf() {
                    Ok(b) if b.is_empty() => break,
                    Ok(b) => {
                        let n = if draw(4) == 0 { b.len() } else { 1 + draw(b.len() as u32) as usize };
                        d.extend_from_slice(&b[..n]);
                        n
                    }
                    Err(e) => return Err(format!("{:?}", e)),
                };
                f.data.consume(n);
            }
            out.push(field_of(&f.headers, d));
        },
        _ => {
            let thr = pick(&[0u64, 100, 10_240]);
            match mp.save().memory_threshold(thr).size_limit(None).count_limit(None).temp() {
                SaveResult::Full(en) => {
                    // grouped by name: order within a name is kept
                    for (_, v) in en.fields.iter() {
                        for s in v {
                            let mut d = Vec::new();
                            if let Err(e) = s.data.readable().and_then(|mut r| r.read_to_end(&mut d)) {
                                vio!("C17/read-back", "reading a saved field failed: {}", e);
                            }
                            out.push(field_of(&s.headers, d));
                        }
                    }
                }
                SaveResult::Partial(_, r) => return Err(format!("{:?}", r)),
                SaveResult::Error(e) => return Err(format!("{:?}", e)),
            }
        }
    }
    Ok(out)
}

fn nextr<R: Read>(mp: &mut Multipart<R>) -> io::Result<Option<multipart::server::MultipartField<&mut Multipart<R>>>> {
    mp.read_entry()
}

fn conclude(h: &ServerH, r: Result<Vec<Field>, String>) -> (u16, &'static str) {
    let mut s = lk(h);
    s.answered = true;
    match r {
        Ok(f) => {
            ev("server-complete", f.len() as u64, 0);
            s.seen = Seen::Complete(f);
            (200, "OK")
        }
        Err(e) => {
            ev("server-failed", 0, 0);
            s.seen = Seen::Failed(e);
            (400, "Bad Request")
        }
    }
}

fn answer(sock: &mut Sock, (code, text): (u16, &str)) {
    let _ = write!(sock, "HTTP/1.1 {} {}\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok", code, text);
}

struct Plain(ServerH);
impl Handler for Plain {
    fn handle<'a, 'k>(&'a self, _: ServerRequest<'a, 'k>, mut res: ServerResponse<'a>) {
        let mut s = lk(&self.0);
        s.answered = true;
        s.seen = Seen::NotMultipart;
        *res.status_mut() = StatusCode::UnsupportedMediaType;
    }
}

/// One request on the server side of the connection.
fn serve(mut sock: Sock, style: u32, h: ServerH) {
    let mut out = sock.clone();
    let closer = sock.clone();
    {
        let mut rdr = BufReader::new(&mut sock as &mut dyn NetworkStream);
        let mut req = match ServerRequest::new(&mut rdr, net::addr()) {
            Ok(r) => r,
            Err(e) => {
                note(|| format!("the request head could not be read: {:?}", e));
                closer.close();
                return;
            }
        };
        let len = req.headers.get::<hyper::header::ContentLength>().map(|l| l.0);
        lk(&h).head = Some((len, req.headers.has::<hyper::header::TransferEncoding>()));
        let drain = draw(2) == 0;
        match style {
            0 => {
                let r = match Multipart::from_request(&mut req) {
                    Ok(mp) => Some(take_all(mp)),
                    Err(_) => None,
                };
                if drain {
                    let _ = io::copy(&mut req, &mut io::sink());
                }
                match r {
                    Some(r) => answer(&mut out, conclude(&h, r)),
                    None => not_multipart(&h, &mut out),
                }
            }
            1 => {
                let h2 = h.clone();
                let sw = Switch::new(Plain(h.clone()), move |mp: Multipart<ServerRequest>, mut res: ServerResponse| {
                    let r = take_all(mp);
                    let (code, _) = conclude(&h2, r);
                    *res.status_mut() = StatusCode::from_u16(code);
                    let _ = res.send(b"ok");
                });
                let mut headers = hyper::header::Headers::new();
                headers.set(hyper::header::Connection::close());
                let res = ServerResponse::new(&mut out, &mut headers);
                sw.handle(req, res);
            }
            2 => match iron::Request::from_http(req, net::addr(), &iron::Protocol::http()) {
                Ok(mut req) => {
                    let r = match Multipart::from_request(&mut req) {
                        Ok(mp) => Some(take_all(mp)),
                        Err(_) => None,
                    };
                    if drain {
                        let _ = io::copy(&mut req.body, &mut io::sink());
                    }
                    match r {
                        Some(r) => answer(&mut out, conclude(&h, r)),
                        None => not_multipart(&h, &mut out),
                    }
                }
                Err(e) => vio!("C17/iron", "iron refused the request: {}", e),
            },
            _ => {
                let mut req = nickel::Request::from_internal(req, &());
                let r = if draw(2) == 0 {
                    req.multipart_body().map(take_all)
                } else {
                    Multipart::from_request(Maybe(&mut req)).ok().map(take_all)
                };
                if drain {
                    let _ = io::copy(&mut req.origin, &mut io::sink());
                }
                match r {
                    Some(r) => answer(&mut out, conclude(&h, r)),
                    None => not_multipart(&h, &mut out),
                }
            }
        }
    }
    closer.close();
}

fn not_multipart(h: &ServerH, out: &mut Sock) {
    {
        let mut s = lk(h);
        s.answered = true;
        s.seen = Seen::NotMultipart;
    }
    answer(out, (415, "Unsupported"));
}

/// Headers that the application sets itself; the type of the content is not for it to say.
fn own_headers(h: &mut hyper::header::Headers) {
    match draw(6) {
        0 => h.set_raw("Content-Type", vec![b"text/plain".to_vec()]),
        1 => h.set_raw("Content-Type", vec![b"multipart/form-data; boundary=mine".to_vec()]),
        2 => h.set_raw("X-Requested-With", vec![b"multipart/form-data; boundary=mine".to_vec()]),
        _ => {}
    }
}

/// The client's side; the status it got, or why not.
fn client(sock: Sock, refuse: Option<ErrorKind>, mode: u32, method: Method, fs: &mut [CField]) -> Result<(u16, Vec<u8>), String> {
    let con = net::Connector(Mutex::new(vec![sock]), refuse);
    let url: hyper::Url = "http://server.example/upload".parse().unwrap();
    let er = |e: hyper::Error| format!("{:?}", e);
    let mut res = match mode {
        0 | 1 => {
            let mut req = ClientRequest::with_connector(method, url, &con).map_err(er)?;
            own_headers(req.headers_mut());
            if mode == 0 {
                let mut mp = ClientMultipart::from_request(req).map_err(er)?;
                write_fields(&mut mp, fs).map_err(er)?;
                mp.send().map_err(er)?
            } else {
                let mut mp = ClientMultipart::from_request_sized(req).map_err(er)?;
                write_fields(&mut mp, fs).map_err(er)?;
                mp.send().map_err(er)?
            }
        }
        2 => {
            let mut req = ClientRequest::with_connector(method, url, &con).map_err(er)?;
            own_headers(req.headers_mut());
            let mut mp = lazy::Multipart::new();
            for f in fs.iter() {
                add_one(&mut mp, f);
            }
            mp.send(req).map_err(|e| format!("{:?}", e))?
        }
        _ => {
            let client = Client::with_connector(con);
            let mut mp = lazy::Multipart::new();
            for f in fs.iter() {
                add_one(&mut mp, f);
            }
            if mode == 3 {
                mp.client_request(&client, url).map_err(er)?
            } else {
                let mut h = hyper::header::Headers::new();
                own_headers(&mut h);
                mp.client_request_mut(&client, url, |r| r.headers(h).header(hyper::header::Connection::close())).map_err(er)?
            }
        }
    };
    let mut body = Vec::new();
    let code = res.status.to_u16();
    if let Err(e) = res.read_to_end(&mut body) {
        return Err(format!("response body: {:?}", e));
    }
    Ok((code, body))
}

fn write_fields<S: multipart::client::HttpStream>(mp: &mut ClientMultipart<S>, fs: &mut [CField]) -> Result<(), S::Error> {
    for f in fs.iter_mut() {
        match f.kind {
            Kind::Text => {
                mp.write_text(&f.want.name, std::str::from_utf8(&f.want.data).unwrap())?;
            }
            Kind::Stream => {
                let m: Option<mime::Mime> = f.ctype.as_ref().map(|c| c.parse().unwrap());
                mp.write_stream(&f.want.name, &mut f.src, f.want.filename.as_deref(), m)?;
            }
            Kind::File => {
                mp.write_file(&f.want.name, &f.path)?;
            }
        }
    }
    Ok(())
}

/// What this crate's client puts on the wire, received by tiny_http.
fn tiny17() {
    let mut fs = cfields(4, pick(&[600usize, 5000, 30_000]), &[Kind::Text, Kind::Stream, Kind::File]);
    let want: Vec<Field> = fs.iter().map(|f| f.want.clone()).collect();
    let tr = super::client::transport();
    lk(&tr.out).draw_soft();
    if draw(2) == 0 {
        let mut mp = ClientMultipart::from_request(tr.req()).unwrap_or_else(|e| vio!("C17/client", "{:?}", e));
        if let Err(e) = write_fields(&mut mp, &mut fs) {
            vio!("C17/client", "{:?}", e);
        }
        if let Err(e) = mp.send() {
            vio!("C17/client", "{:?}", e);
        }
    } else {
        let mut mp = lazy::Multipart::new();
        for f in fs.iter() {
            add_one(&mut mp, f);
        }
        if let Err(e) = mp.send(tr.req()) {
            vio!("C17/client", "{:?}", e);
        }
    }
    let (body, boundary) = (tr.body(), tr.boundary().unwrap());
    let close = draw(2) == 0;
    let quoted = draw(2) == 0;
    let mut raw = format!(
        "POST /upload HTTP/1.1\r\nHost: server.example\r\nContent-Type: multipart/form-data; boundary={1}{0}{1}\r\n{2}",
        boundary,
        if quoted { "\"" } else { "" },
        if close { "Connection: close\r\n" } else { "" }
    )
    .into_bytes();
    let chunked = draw(2) == 0;
    let head;
    // where on the wire the closing delimiter has arrived in full
    let mut done = 0;
    let close_end = body.len().saturating_sub(2);
    if chunked {
        raw.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        head = raw.len();
        let mut p = 0;
        for c in body.chunks(1 + draw(3000) as usize) {
            raw.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            if close_end <= p + c.len() && done == 0 {
                done = raw.len() + close_end - p;
            }
            p += c.len();
            raw.extend_from_slice(c);
            raw.extend_from_slice(b"\r\n");
        }
        raw.extend_from_slice(b"0\r\n\r\n");
    } else {
        raw.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
        head = raw.len();
        done = head + close_end;
        raw.extend_from_slice(&body);
    }
    let mut plan = super::head::tiny_plan(head, raw.len());
    // shorter bodies are read by tiny_http before there is a request
    let cut = if draw(2) == 0 && (chunked || body.len() > 1024) {
        let c = head + draw((raw.len() - head) as u32) as usize;
        plan.end = pick(&[0, crate::tiny::broken(ErrorKind::ConnectionReset), crate::tiny::broken(ErrorKind::TimedOut)]);
        raw.truncate(c);
        fault("connection:cut");
        Some(c)
    } else {
        None
    };
    sample(|| format!("tiny_http: {} fields, {} bytes, chunked {} cut {:?} end {}", want.len(), body.len(), chunked, cut, plan.end));
    note(|| format!("tiny_http: {} bytes on the wire, head {} done {} cut {:?}", raw.len(), head, done, cut));
    let Some(mut t) = crate::tiny::Tiny::new(raw, plan) else { vio!("C17/head", "tiny_http did not take the request") };
    let r = match Multipart::from_request(t.req.as_mut().unwrap()) {
        Ok(mp) => take_all(mp),
        Err(_) => vio!("C17/server", "the request is not taken for multipart by tiny_http"),
    };
    t.finish();
    ev("tiny", r.is_ok() as u64, 0);
    match (r, cut) {
        (Ok(got), cut) => {
            check!(cut.map_or(true, |c| c >= done), "C17/server", "a complete request although the connection broke off");
            same_fields("C17/server", &got, &want, false);
            probe("tiny-complete");
        }
        (Err(_), Some(_)) => probe("tiny-failed"),
        (Err(e), None) => vio!("C17/healthy", "on a healthy connection tiny_http's request failed: {}", e),
    }
}

pub fn c17(ctx: &Arc<Ctx>) {
    if draw(6) == 5 {
        return tiny17();
    }
    let mode = draw(5);
    let style = draw(4);
    let mut fs = cfields(4, pick(&[600usize, 5000, 30_000]), &[Kind::Text, Kind::Stream, Kind::File]);
    let total: usize = fs.iter().map(|f| f.want.data.len() + 200).sum::<usize>() + 400;
    let (cs, ss, net) = net::pair();
    let mut refuse = None;
    let mut source = false;
    // a request that cannot be made
    let mut method = Method::Post;
    let mut hopeless = false;
    if draw(12) == 0 {
        let on_disk: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].kind == Kind::File).collect();
        if mode < 3 && draw(2) == 0 {
            method = pick(&[Method::Put, Method::Get, Method::Patch, Method::Extension("POS".into())]);
            hopeless = true;
        } else if mode >= 2 && !on_disk.is_empty() {
            let i = pick(&on_disk);
            unarmed(|| std::fs::remove_file(&fs[i].path).unwrap());
            hopeless = true;
        }
    }
    {
        let mut n = lk(&net);
        if hopeless {
            n.faulty = true;
        } else if draw(2) == 1 {
            n.faulty = true;
            n.linger = draw(2) == 0;
            match draw(8) {
                0 | 1 | 2 | 3 => {
                    let at = match draw(3) {
                        0 => draw(500) as usize,
                        1 => total.saturating_sub(draw(400) as usize),
                        _ => draw(total as u32) as usize,
                    };
                    n.d[0].cut = Some((at, pick(&[Cut::Fin, Cut::Reset, Cut::Stall])));
                }
                4 | 5 => {
                    n.d[1].cut = Some((draw(90) as usize, pick(&[Cut::Fin, Cut::Reset, Cut::Stall])));
                }
                6 => refuse = Some(ErrorKind::ConnectionRefused),
                _ => {
                    // a data source of the client fails
                    for f in fs.iter_mut().filter(|f| f.kind == Kind::Stream) {
                        let p = draw(f.want.data.len() as u32 + 1) as usize;
                        let mut s = lk(&f.h);
                        s.stop = p;
                        s.end = End::Err(pick(&[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::BrokenPipe]));
                        source = true;
                        break;
                    }
                }
            }
        }
    }
    let healthy = !lk(&net).faulty;
    let timeout = if healthy { None } else { pick(&[None, None, Some(5u64), Some(30)]) };
    if let Some(t) = timeout {
        let _ = ss.set_read_timeout(Some(Duration::from_secs(t)));
    }
    let p = FsPlan { read_short: pick(&[0u32, 0, 3]), ..FsPlan::default() };
    with(|s| s.fs.plan = p);
    sample(|| {
        let n = lk(&net);
        format!("client {} server {} healthy {} cap {} seg {} latency {} cuts {:?} {:?}", mode, style, healthy, n.cap, n.seg, n.latency, n.d[0].cut, n.d[1].cut)
    });
    let server: ServerH = Arc::new(Mutex::new(Server { seen: Seen::Nothing, answered: false, head: None }));
    let result: Arc<Mutex<Option<(Result<(u16, Vec<u8>), String>, bool)>>> = Arc::default();
    let want: Vec<Field> = fs.iter().map(|f| f.want.clone()).collect();
    {
        let (s1, s2, r) = (server.clone(), server.clone(), result.clone());
        let fsr = &mut fs;
        let ts: Vec<Box<dyn FnOnce() + Send + '_>> = vec![
            Box::new(move || {
                let x = client(cs, refuse, mode, method, fsr);
                let answered = lk(&s1).answered;
                ev("client-done", x.is_ok() as u64, answered as u64);
                *lk(&r) = Some((x, answered));
            }),
            Box::new(move || serve(ss, style, s2)),
        ];
        crate::sched::run_all(ctx, ts, 60_000 + 40 * total as u64);
    }
    let s = lk(&server);
    let Some((res, answered)) = lk(&result).take() else { vio!("C17/hang", "the client did not finish") };
    if hopeless {
        check!(res.is_err(), "C17/hopeless", "the client reports {:?} for a request that cannot be made", res);
        let sent = lk(&net).d[0].sent;
        check!(sent == 0 && matches!(s.seen, Seen::Nothing), "C17/hopeless", "{} bytes of a request that cannot be made were sent", sent);
        return probe("hopeless");
    }
    if let Some((len, chunked)) = s.head {
        // sized requests, and lazy ones whose fields all have a known length
        let known = mode == 1 || (mode >= 2 && fs.iter().all(|f| f.kind != Kind::Stream));
        check!(len.is_some() == known && chunked != known, "C17/length", "client {}: announced length {:?}, chunked {}", mode, len, chunked);
        probe(if known { "length-announced" } else { "chunked" });
    }
    if let Seen::Complete(got) = &s.seen {
        let ordered = false;
        same_fields("C17/server", got, &want, ordered);
        check!(!source, "C17/server", "a complete request although the client's source failed");
        probe("complete");
    }
    match &res {
        Ok((code, body)) => {
            check!(answered, "C17/success", "the client reports status {} but the server has not answered", code);
            check!(body == b"ok" || *code == 415, "C17/response", "response body {:?}", body);
            let expect = match &s.seen {
                Seen::Complete(_) => 200,
                Seen::Failed(_) => 400,
                _ => 415,
            };
            check!(*code == expect, "C17/status", "the client got status {} for {:?}", code, short(&s.seen));
            if *code == 200 {
                probe("success");
            }
        }
        Err(_) => probe("client-failed"),
    }
    if healthy {
        match (&s.seen, &res) {
            (Seen::Complete(_), Ok((200, _))) => {}
            (s, r) => vio!("C17/healthy", "on a healthy connection the server saw {} and the client got {:?}", short(s), r.as_ref().map(|x| x.0)),
        }
    } else if let Seen::Failed(_) = &s.seen {
        probe("server-failed");
    }
}

fn short(s: &Seen) -> String {
    match s {
        Seen::Complete(f) => format!("a complete request of {} fields", f.len()),
        x => format!("{:?}", x),
    }
}

// ---- C18 --------------------------------------------------------------------------------------

/// A connection that delivers prepared bytes.
pub struct Wire(pub SimRead, pub Vec<u8>);
impl Read for Wire {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Wire {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok(net::addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

struct Req18 {
    form: gen::Form,
    src: SimRead,
    h: SrcH,
    head: usize,
    /// one past the closing delimiter, on the wire
    cut: Option<usize>,
    multipart: bool,
}

fn make_request(tag: usize) -> Req18 {
    let mut form = gen::form(&Opts { max_fields: 5, max_len: pick(&[16_000, 16_000, 60_000]), mime: true, ..Opts::default() });
    for (i, f) in form.fields.iter_mut().enumerate() {
        if f.name.starts_with('f') {
            f.name = format!("r{}-{}", tag, i);
        }
    }
    // near the default limits
    match draw(600) {
        599 => {
            let d = vec![b'x'; DEFAULT_FILE_SIZE_LIMIT as usize + draw(3) as usize - 1];
            form.fields.push(Field { name: "big".into(), filename: Some("big.bin".into()), ctype: None, data: d });
            probe("default-size");
        }
        590..=598 => {
            let n = DEFAULT_FILE_COUNT_LIMIT as usize + draw(3) as usize - 1;
            while form.fields.len() < n {
                let k = form.fields.len();
                form.fields.push(Field { name: format!("m{}", k % 7), filename: Some(format!("{}.bin", k)), ctype: None, data: vec![b'0' + (k % 10) as u8; k] });
            }
            probe("default-count");
        }
        _ => {}
    }
    let e = gen::encode(&form);
    let multipart = draw(12) != 11;
    let plain = form.boundary.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_' || c == b'.');
    let bound = if !plain || draw(3) == 0 { format!("\"{}\"", form.boundary) } else { form.boundary.clone() };
    let ct = if multipart { format!("multipart/form-data; boundary={}", bound) } else { "application/x-www-form-urlencoded".into() };
    let mut raw = format!("POST /up HTTP/1.1\r\nHost: server.example\r\nContent-Type: {}\r\n", ct).into_bytes();
    let chunked = draw(2) == 1;
    if chunked {
        raw.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
    } else {
        raw.extend_from_slice(format!("Content-Length: {}\r\n\r\n", e.bytes.len()).as_bytes());
    }
    let head = raw.len();
    let mut marks = Vec::new();
    if chunked {
        let mut p = 0;
        let sz = pick(&[0usize, 1, 100, 4096]);
        let mut k = 0;
        while p < e.bytes.len() {
            k += 1;
            let n = if sz == 0 || k > 200 { e.bytes.len() - p } else { 1 + draw(2 * sz as u32) as usize }.min(e.bytes.len() - p);
            raw.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
            marks.push(raw.len());
            raw.extend_from_slice(&e.bytes[p..p + n]);
            raw.extend_from_slice(b"\r\n");
            p += n;
        }
        raw.extend_from_slice(b"0\r\n\r\n");
    } else {
        marks.extend(e.marks.iter().map(|m| m + head));
        raw.extend_from_slice(&e.bytes);
    }
    let len = raw.len();
    let seg = draw_seg(len, &marks);
    let (src, h) = src(Arc::new(raw), seg);
    // the head arrives whole (how hyper reads it is not ours); then the drawn segmentation
    let mut cut = None;
    if draw(4) == 3 && len > head {
        let c = head + draw((len - head) as u32) as usize;
        let mut s = lk(&h);
        s.stop = c;
        s.end = pick(&[End::Eof, End::Err(ErrorKind::ConnectionReset), End::Err(ErrorKind::TimedOut)]);
        cut = Some(c);
        drop(s);
        fault("connection:cut");
    }
    Req18 { form, src, h, head, cut, multipart }
}

enum Expect {
    Full,
    Count,
    Size(usize),
}

fn model(form: &gen::Form, size: u64, count: u32) -> Expect {
    for (i, f) in form.fields.iter().enumerate() {
        if i as u32 >= count {
            return Expect::Count;
        }
        if f.data.len() as u64 > size {
            return Expect::Size(i);
        }
    }
    Expect::Full
}

fn children(dir: &PathBuf) -> Vec<PathBuf> {
    unarmed(|| std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default())
}

fn one_intercept(r: &Req18, ic: &Intercept, (size_limit, count_limit, lenient): (u64, u32, bool), parent: &PathBuf, disk: bool, alone: bool, then: &mut dyn FnMut()) {
    let mut wire = Wire(r.src.clone(), Vec::new());
    let mut rdr = BufReader::new(&mut wire as &mut dyn NetworkStream);
    let req = match ServerRequest::new(&mut rdr, net::addr()) {
        Ok(q) => q,
        Err(e) => vio!("C18/head", "hyper could not read the head: {:?}", e),
    };
    let mut req = match iron::Request::from_http(req, net::addr(), &iron::Protocol::http()) {
        Ok(q) => q,
        Err(e) => vio!("C18/head", "iron refused the request: {}", e),
    };
    {
        let mut s = lk(&r.h);
        let left = (s.data.len() - s.pos) as u64;
        s.budget = s.reads + 60_000 + 20 * left;
    }
    let res = ic.before(&mut req);
    ev("before", res.is_ok() as u64, 0);
    let exp = model(&r.form, size_limit, count_limit);
    let entries = req.extensions.get::<Entries>();
    if !r.multipart {
        check!(res.is_ok() && entries.is_none(), "C18/other", "a request that is not multipart was not left alone: {:?}", res.err().map(|e| e.to_string()));
        probe("not-multipart");
        return;
    }
    let failed_disk = disk && with(|s| !s.fs.hard.is_empty());
    match res {
        Ok(()) => {
            let Some(en) = entries else { vio!("C18/lost", "no entries were stored for a multipart request") };
            check!(!failed_disk, "C18/hidden", "success although the disk failed");
            let m = (count_limit as usize).min(r.form.fields.len());
            if !lenient {
                check!(matches!(exp, Expect::Full), "C18/limit", "a request over its limits was accepted in strict mode");
            }
            // exactly the allowed fields, cut at the limit
            let mut total = 0;
            let mut files = Vec::new();
            let mut pos: std::collections::BTreeMap<&str, usize> = Default::default();
            for (i, f) in r.form.fields[..m].iter().enumerate() {
                let k = pos.entry(f.name.as_str()).or_insert(0);
                let Some(s) = en.fields.get(f.name.as_str()).and_then(|v| v.get(*k)) else {
                    vio!("C18/missing", "field {} ({}) is missing from the entries", i, f.name)
                };
                *k += 1;
                check_headers("C18/headers", &s.headers, f);
                let d = super::read::saved_bytes("C18", &s.data);
                let w = &f.data[..f.data.len().min(size_limit as usize)];
                check!(d == w, "C18/data", "field {}: {}", i, diff(&d, w));
                if let SavedData::File(p, n) = &s.data {
                    check!(*n == d.len() as u64, "C18/size", "recorded {} of {}", n, d.len());
                    check!(p.starts_with(parent), "C18/place", "saved outside the configured directory");
                    files.push(p.clone());
                }
                total += 1;
            }
            let have: usize = en.fields.values().map(|v| v.len()).sum();
            check!(have == total, "C18/extra", "{} fields stored, {} allowed or sent", have, total);
            let dir = en.save_dir.as_path();
            check!(en.save_dir.is_temporary() && dir.starts_with(parent), "C18/place", "the save directory is not a temporary one below the configured directory");
            check!(unarmed(|| dir.is_dir()), "C18/gone", "the directory disappeared before the request did");
            let inside = unarmed(|| std::fs::read_dir(dir).unwrap().count());
            // the cut-off remainder is not kept; nothing but the stored fields is
            check!(inside == files.len(), "C18/foreign", "{} files in the request's directory, {} belong to it", inside, files.len());
            if r.cut.is_some() {
                // only the end of the body after the closing delimiter may be missing
                check!(complete(r), "C18/cut", "a request that broke off was accepted");
            }
            probe(if lenient { "stored-lenient" } else { "stored-strict" });
            then();
            let Some(en) = req.extensions.get::<Entries>() else { vio!("C18/lost", "the entries are gone") };
            check!(unarmed(|| en.save_dir.as_path().read_dir().map_or(false, |d| d.count() == inside)), "C18/foreign", "the request's files changed while another request was handled");
            drop(req);
        }
        Err(e) => {
            check!(entries.is_none(), "C18/both", "rejected, but entries are stored");
            let size = e.error.downcast_ref::<FileSizeLimitError>();
            let count = e.error.downcast_ref::<FileCountLimitError>();
            let broken = r.cut.map_or(false, |_| true) || failed_disk;
            if let Some(z) = size {
                match exp {
                    Expect::Size(i) if !lenient => check_headers("C18/field", &z.field, &r.form.fields[i]),
                    _ => vio!("C18/limit", "rejected for its size (limit {}): {}", size_limit, e),
                }
                probe("rejected-size");
            } else if count.is_some() {
                check!(matches!(exp, Expect::Count) && !lenient, "C18/limit", "rejected for its count (limit {}): {}", count_limit, e);
                let text = count.unwrap().to_string();
                check!(text.contains(&count_limit.to_string()), "C18/told", "the count limit {} is reported as {:?}", count_limit, text);
                probe("rejected-count");
            } else {
                check!(broken, "C18/error", "rejected with {:?} although nothing failed", e.error);
                probe("rejected-broken");
            }
            drop(req);
        }
    }
    if alone {
        let left = children(parent);
        check!(left.is_empty(), "C18/left", "{} is left after the request is gone", left[0].display());
    }
}

/// all of the body up to its closing delimiter was delivered
fn complete(r: &Req18) -> bool {
    let s = lk(&r.h);
    let raw = &s.data[r.head..s.stop];
    let close = format!("--{}--", r.form.boundary);
    // for a chunked body the delimiter may be split; be lenient there
    gen::contains(raw, close.as_bytes()).is_some() || s.data[..r.head].windows(7).any(|w| w == b"chunked") && s.data.len() - s.stop < 100 + close.len() * 6
}

pub fn c18(ctx: &Arc<Ctx>) {
    let parent = if draw(3) == 0 { tmp() } else { tmp().join("parent").join("dir") };
    let make = draw(2) == 0 || parent == tmp();
    if make {
        unarmed(|| std::fs::create_dir_all(&parent).unwrap());
    }
    let tasks = if draw(2) == 0 { 1 } else { 2 + draw(2) as usize };
    let reqs: Vec<Req18> = (0..tasks).map(make_request).collect();
    let near = reqs[0].form.fields.iter().map(|f| f.data.len() as u64).collect::<Vec<_>>();
    let size = match draw(7) {
        6 => Some(super::save::huge()),
        0 => None,
        1 => Some(0u64),
        2 => Some(100),
        3 => Some(10_240),
        _ if !near.is_empty() => Some((near[draw(near.len() as u32) as usize] + draw(3) as u64).saturating_sub(1)),
        _ => Some(5),
    };
    let n = reqs[0].form.fields.len() as u32;
    let count = match draw(5) {
        4 => Some(pick(&[u32::MAX, 1 << 31, 1 << 16, 1 << 8]) - draw(2)),
        0 => None,
        1 => Some(n),
        2 => Some(n.saturating_sub(1)),
        _ => Some(draw(4)),
    };
    let lenient = draw(2) == 1;
    // what was not configured has its documented default
    let limits = (size.unwrap_or(DEFAULT_FILE_SIZE_LIMIT), count.unwrap_or(DEFAULT_FILE_COUNT_LIMIT), lenient);
    // set in any order
    let mut ic = Intercept::default();
    let first = draw(4);
    for i in 0..4 {
        ic = match (first + i) % 4 {
            0 if parent != tmp() || draw(2) == 0 => ic.temp_dir_path(parent.clone()),
            1 if size.is_some() => ic.file_size_limit(size.unwrap()),
            2 if count.is_some() => ic.file_count_limit(count.unwrap()),
            3 if lenient => ic.limit_behavior(LimitBehavior::Continue),
            3 if draw(2) == 1 => ic.limit_behavior(LimitBehavior::ThrowError),
            _ => ic,
        };
    }
    let mut disk = false;
    if tasks == 1 && draw(4) == 3 {
        let mut p = FsPlan::default();
        match draw(3) {
            0 => p.open_create.push((1 + draw(2), pick(&[libc::EMFILE, libc::EACCES, libc::ENOSPC]))),
            1 => {
                p.write.push((1 + draw(4), WFault::Err(pick(&[libc::ENOSPC, libc::EIO]))));
                p.write_sticky = draw(2) == 1;
            }
            _ => p.mkdir.push((1 + draw(2), pick(&[libc::ENOSPC, libc::EACCES]))),
        }
        with(|s| s.fs.plan = p);
        disk = true;
    } else {
        let p = FsPlan { short: pick(&[0u32, 0, 3]), eintr: pick(&[0u32, 0, 3]), ..FsPlan::default() };
        with(|s| s.fs.plan = p);
    }
    sample(|| format!("{} requests, size {:?} count {:?} lenient {}, {} fields", tasks, size, count, lenient, n));
    let ic = Arc::new(ic);
    if tasks == 1 {
        // perhaps another one is handled by this thread while the first is still alive
        let second = (!disk && draw(3) == 0).then(|| make_request(1));
        one_intercept(&reqs[0], &ic, limits, &parent, disk, true, &mut || {
            if let Some(r) = &second {
                one_intercept(r, &ic, limits, &parent, false, false, &mut || ());
                probe("nested");
            }
        });
    } else {
        let ts: Vec<Box<dyn FnOnce() + Send + '_>> = reqs
            .iter()
            .map(|r| {
                let (ic, parent) = (ic.clone(), parent.clone());
                let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                    one_intercept(r, &ic, limits, &parent, false, false, &mut || ());
                });
                b
            })
            .collect();
        let total: u64 = reqs.iter().map(|r| lk(&r.h).data.len() as u64).sum();
        crate::sched::run_all(ctx, ts, 400_000 + 40 * total);
        probe("concurrent");
    }
    let left = children(&parent);
    check!(left.is_empty(), "C18/left", "{} is left after all requests are gone", left[0].display());
    let esc = with(|s| s.fs.escapes.clone());
    check!(esc.is_empty(), "C18/escape", "files touched outside the scratch directory: {:?}", esc);
}
