//! The properties: what is simulated, and the oracles.
use crate::core::*;
use crate::gen::{Enc, Field};
use crate::io::{SimRead, Src, SrcH};
pub use crate::io::lk;
use crate::runner::Prop;
use multipart::server::FieldHeaders;
use std::sync::{Arc, Mutex};

mod client;
mod e2e;
mod head;
mod misc;
mod read;
mod save;
mod tee;

pub use client::boundaries;

pub const SERVER: &[&str] = &["multipart::server (reader, boundary search, header parser)", "buf_redux", "httparse", "mime"];
pub const SAVE: &[&str] = &["multipart::server and multipart::server::save", "buf_redux", "httparse", "tempfile", "std::fs on a real scratch directory"];

pub const CLIENT: &[&str] = &["multipart::client (streaming, sized, lazy)", "rand", "mime_guess", "std::fs on a real scratch directory"];
pub const E2E: &[&str] = &["multipart::client and its hyper adapters", "multipart::server and its hyper, iron, nickel and tiny_http adapters", "hyper client and server HTTP code", "iron and nickel request types", "tiny_http server"];
pub const IRON: &[&str] = &["multipart::server::iron::Intercept", "multipart::server", "hyper server HTTP code", "iron request type", "tempfile", "std::fs on a real scratch directory"];

pub fn all() -> &'static [Prop] {
    &[
        Prop { id: "C01", title: "segmentation", f: read::c01, fs: false, quick: 1_000_000, real: SERVER, stub: &["body source"],
            rule: "a generated (2/3) or mutated (1/3) body parsed under a drawn segmentation; non-trivial when the body arrived in more than one piece" },
        Prop { id: "C02", title: "consumption", f: read::c02, fs: false, quick: 1_000_000, real: SERVER, stub: &["body source", "application"],
            rule: "a generated body, a drawn segmentation and a drawn sequence of reader calls; non-trivial when it was segmented or a field was consumed in more than one way" },
        Prop { id: "C03", title: "truncation", f: read::c03, fs: true, quick: 600_000, real: SAVE, stub: &["body source", "system calls of the save"],
            rule: "a generated body cut at a drawn byte (end of stream or persistent error), iterated or saved; always non-trivial" },
        Prop { id: "C04", title: "source errors", f: read::c04, fs: true, quick: 600_000, real: SAVE, stub: &["body source", "application retries"],
            rule: "a generated body whose source fails transiently at drawn bytes while the application retries or resumes; non-trivial when a fault was injected" },
        Prop { id: "C05", title: "totality", f: read::c05, fs: true, quick: 400_000, real: SAVE, stub: &["body source", "application", "allocator (counting)"],
            rule: "arbitrary or mutated bytes, source faults and a drawn sequence of reader and save calls; non-trivial when segmented or faulted" },
        Prop { id: "C06", title: "full save", f: save::c06, fs: true, quick: 600_000, real: SAVE, stub: &["body source", "system calls (short and interrupted reads and writes)"],
            rule: "a generated body, segmentation, memory threshold, destination and pattern of short and interrupted file writes; non-trivial when segmented or faulted" },
        Prop { id: "C07", title: "size limit", f: save::c07, fs: true, quick: 600_000, real: SAVE, stub: &["body source", "writer", "system calls"],
            rule: "a generated body, segmentation, size limit and threshold, saved as a whole (resumed until done), per field or copied; non-trivial when segmented or faulted" },
        Prop { id: "C08", title: "count limit", f: save::c08, fs: true, quick: 500_000, real: SAVE, stub: &["body source", "system calls"],
            rule: "a generated body, segmentation and count limit, resumed in drawn ways until done; non-trivial when segmented or faulted" },
        Prop { id: "C09", title: "disk faults", f: save::c09, fs: true, quick: 500_000, real: SAVE, stub: &["body source", "system calls (errors, full disk, short and interrupted writes)"],
            rule: "a generated body and segmentation saved while the file system fails at drawn calls, then healed and resumed; non-trivial when segmented or faulted" },
        Prop { id: "C10", title: "concurrent saves", f: save::c10, fs: true, quick: 200_000, real: SAVE, stub: &["body sources", "thread scheduler", "randomness", "system calls"],
            rule: "two to four requests saved by simulated threads into one directory under a drawn interleaving, with colliding names and existing files; non-trivial when a task switch or fault happened" },
        Prop { id: "C11", title: "text", f: save::c11, fs: true, quick: 600_000, real: SAVE, stub: &["body source"],
            rule: "text and almost-text fields, segmented inside characters, saved under a drawn policy, threshold and limit; non-trivial when segmented" },
        Prop { id: "C12", title: "copy", f: save::c12, fs: false, quick: 1_500_000, real: SERVER, stub: &["body source", "writer"],
            rule: "fields copied to a writer with drawn faults on both sides, resumed until done; non-trivial when segmented or faulted" },
        Prop { id: "C13", title: "streaming client", f: client::c13, fs: true, quick: 400_000, real: CLIENT, stub: &["transport", "data sources", "system calls (short and interrupted reads)"],
            rule: "fields of text, stream and file written to a streaming request over a transport with short and interrupted writes; non-trivial when segmented or faulted" },
        Prop { id: "C14", title: "client failures", f: client::c14, fs: true, quick: 400_000, real: CLIENT, stub: &["transport", "data sources", "system calls"],
            rule: "a streaming, sized or lazy request with a hard fault drawn in headers, open, write, finish, source or file, and drawn calls after it; non-trivial when segmented or faulted" },
        Prop { id: "C15", title: "lazy client", f: client::c15, fs: true, quick: 400_000, real: CLIENT, stub: &["data sources", "reader of the body", "system calls"],
            rule: "a prepared lazy request read with drawn buffer sizes while its sources are short, interrupted or fail temporarily; non-trivial when segmented or faulted" },
        Prop { id: "C16", title: "sized client", f: client::c16, fs: true, quick: 400_000, real: CLIENT, stub: &["transport", "data sources", "system calls"],
            rule: "a sized request over a transport that is short, interrupted or fails at a drawn point; non-trivial when segmented or faulted" },
        Prop { id: "C17", title: "end to end", f: e2e::c17, fs: true, quick: 100_000, real: E2E, stub: &["network connection", "thread scheduler", "clock", "client data sources", "server application"],
            rule: "a client and a server task over a bounded, delayed, segmented connection that may be cut, reset or stalled at a drawn byte, or the client's body received by tiny_http over such a connection; non-trivial when segmented, faulted or interleaved" },
        Prop { id: "C18", title: "Iron interceptor", f: e2e::c18, fs: true, quick: 200_000, real: IRON, stub: &["network connection", "thread scheduler", "system calls"],
            rule: "one to three requests through Intercept with drawn limits, mode, segmentation, cuts and disk faults; non-trivial when segmented, faulted or interleaved" },
        Prop { id: "C19", title: "tee", f: tee::c19, fs: false, quick: 600_000, real: &["multipart::mock::StdoutTee", "std::io::Stdout"], stub: &["inner writer", "write system call on descriptor 1"],
            rule: "data written in drawn pieces while both sides are short, interrupted or fail; non-trivial when faulted" },
        Prop { id: "C20", title: "boundaries", f: client::c20, fs: true, quick: 100_000, real: CLIENT, stub: &["transport", "thread scheduler", "randomness"],
            rule: "requests on one to four threads whose data embeds delimiters of earlier requests, or 3000 boundaries in a row; non-trivial when segmented, faulted or interleaved" },
        Prop { id: "C21", title: "temporary directories", f: save::c21, fs: true, quick: 500_000, real: SAVE, stub: &["body source", "system calls"],
            rule: "a save to a temporary directory with a drawn fault or panic, its result dropped, kept, deleted or reused; non-trivial when segmented or faulted" },
        Prop { id: "C22", title: "field headers", f: head::c22, fs: false, quick: 1_000_000, real: SERVER, stub: &["body source"],
            rule: "fields whose header blocks use drawn quoting, parameter and header order, letter case and extras, segmented inside the blocks, with transient source errors; non-trivial when segmented or faulted" },
        Prop { id: "C23", title: "request selection", f: head::c23, fs: false, quick: 800_000, real: E2E, stub: &["network connection", "server application"],
            rule: "a request with a drawn method and content type through one of the HTTP libraries, over a connection delivering drawn pieces; non-trivial when segmented" },
        Prop { id: "C24", title: "file labels", f: misc::c24, fs: true, quick: 400_000, real: CLIENT, stub: &["transport", "system calls (short and interrupted reads)"],
            rule: "files with drawn names sent by a streaming or lazy request over a transport with short and interrupted writes; non-trivial when segmented or faulted" },
        Prop { id: "C25", title: "mock transport", f: misc::c25, fs: true, quick: 500_000, real: &["multipart::mock (ClientRequest, HttpBuffer, ServerRequest)", "multipart::client", "multipart::server", "rand"], stub: &["randomness", "data sources", "system calls (short and interrupted reads)"],
            rule: "a request sent through the mock client and read back through the mock server with a seeded random generator deciding how each write and read is split; always non-trivial" },
        Prop { id: "C26", title: "taking results apart", f: misc::c26, fs: true, quick: 600_000, real: SAVE, stub: &["body source", "system calls", "writer"],
            rule: "a save under drawn limits and source or disk faults whose result is taken apart in a drawn way, or a field saved with drawn open options, or entries read through the result's conversions; non-trivial when segmented or faulted" },
    ]
}

pub type Mp = multipart::server::Multipart<SimRead>;


pub fn headers_match(got: &FieldHeaders, want: &Field) -> bool {
    let ct = want.ctype.as_ref().map(|c| c.parse::<mime::Mime>().unwrap());
    &*got.name == want.name.as_str() && got.filename == want.filename && got.content_type == ct
}

pub fn check_headers(class: &str, got: &FieldHeaders, want: &Field) {
    check!(
        headers_match(got, want),
        class,
        "field headers differ: got name {:?} filename {:?} type {:?}, expected name {:?} filename {:?} type {:?}",
        got.name,
        got.filename,
        got.content_type.as_ref().map(|m| m.to_string()),
        want.name,
        want.filename,
        want.ctype
    );
}

pub fn describe(fields: &[Field]) -> String {
    let v: Vec<String> = fields.iter().map(|f| format!("{}[{}]", f.name, f.data.len())).collect();
    v.join(" ")
}

/// Source over an encoded body with a drawn segmentation.
pub fn seg_src(e: &Enc) -> (SimRead, SrcH) {
    let seg = crate::io::draw_seg(e.bytes.len(), &e.marks);
    note(|| format!("body of {} bytes, segmentation {:?}", e.bytes.len(), seg));
    let r = crate::io::src(Arc::new(e.bytes.clone()), seg);
    lk(&r.1).once = draw(4) == 3;
    r
}

pub fn with_src<T>(h: &SrcH, f: impl FnOnce(&mut Src) -> T) -> T {
    f(&mut lk(h))
}

/// The inherent `Multipart::read_entry`.
pub fn next(mp: &mut Mp) -> std::io::Result<Option<multipart::server::MultipartField<&mut Mp>>> {
    mp.read_entry()
}

/// One reading step of up to `n` bytes by one of the ways `Read` offers; what was read is in `out`
/// even when the step failed.
pub fn read_some<R: std::io::Read>(r: &mut R, n: usize, how: u32, out: &mut Vec<u8>) -> std::io::Result<usize> {
    use std::io::{IoSliceMut, Read};
    let was = out.len();
    match how {
        0 => {
            let mut b = vec![0xAAu8; n];
            let k = r.read(&mut b)?;
            crate::check!(k <= n, "read/count", "read {} bytes into a buffer of {}", k, n);
            out.extend_from_slice(&b[..k]);
        }
        1 => {
            let cut = n / 3;
            let mut b = [vec![0xAAu8; cut], Vec::new(), vec![0xAAu8; n - cut]];
            let k = {
                let mut v: Vec<IoSliceMut> = b.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                r.read_vectored(&mut v)?
            };
            crate::check!(k <= n, "read/count", "read {} bytes into buffers of {}", k, n);
            let all = b.concat();
            out.extend_from_slice(&all[..k]);
        }
        2 => {
            r.take(n as u64).read_to_end(out)?;
        }
        3 => {
            std::io::copy(&mut r.take(n as u64), out)?;
        }
        _ => {
            for b in r.bytes().take(n) {
                out.push(b?);
            }
        }
    }
    Ok(out.len() - was)
}
