//! Generators of forms and bodies, and the reference decoder of client bodies.
use crate::core::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Form {
    pub boundary: String,
    pub fields: Vec<Field>,
}

/// An encoded body with the positions that matter.
#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    /// structural positions (delimiter starts and ends, header ends)
    pub marks: Vec<usize>,
    /// per field: first byte of its headers, first and one-past-last byte of its data
    pub spans: Vec<(usize, usize, usize)>,
    /// one past the last byte of the closing delimiter
    pub close_end: usize,
}

pub fn contains(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    let f = n[0];
    let mut i = 0;
    while i + n.len() <= h.len() {
        match h[i..=h.len() - n.len()].iter().position(|&c| c == f) {
            None => return None,
            Some(p) => {
                i += p;
                if &h[i..i + n.len()] == n {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}

pub fn boundary() -> String {
    match draw(8) {
        0 => "X".to_string(),
        1 => "boundary".to_string(),
        2 => "0123456789abcdef".to_string(),
        3 => "---------------------------974767299852498929531610575".to_string(),
        4 => "----".to_string(),
        5 => {
            let n = match draw(4) {
                0 => pick(&[70usize, 70, 69, 68, 64]),
                _ => 1 + draw(70) as usize,
            };
            let cs = b"abcXYZ019'()+_,-./:=?";
            let mut r = Rng::new(draw(1 << 16) as u64);
            let mut s: String = (0..n).map(|_| cs[r.below(cs.len() as u32) as usize] as char).collect();
            if s.is_empty() {
                s.push('b');
            }
            s
        }
        6 => "-".to_string(),
        _ => "aaaaaaaa".to_string(),
    }
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_fields: usize,
    /// upper bound of the data of one field, roughly
    pub max_len: usize,
    pub text: bool,
    /// the boundary goes through hyper's header parser, which is stricter about its first character
    pub mime: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { max_fields: 5, max_len: 20_000, text: false, mime: false }
    }
}

pub fn form(o: &Opts) -> Form {
    let mut boundary = boundary();
    if !o.mime && boundary.len() > 2 && draw(16) == 15 {
        // legal inside, but not at the end
        boundary.replace_range(1..2, " ");
    }
    if !o.mime && draw(300) == 299 {
        // far longer than anybody's, and than the smallest amount that is buffered
        let n = pick(&[200usize, 600, 1018, 1021, 1024, 1500, 2000, 3000, 4000]);
        let mut r = Rng::new(draw(1 << 12) as u64);
        boundary = (0..n).map(|_| b"ab-"[r.below(3) as usize] as char).collect();
        crate::core::probe("long-boundary");
    }
    if o.mime && !boundary.starts_with(|c: char| c.is_ascii_alphanumeric() || "-._+".contains(c)) {
        boundary.replace_range(..1, "b");
    }
    let n = match draw(8) {
        0 => 1,
        1 => 0,
        _ => draw(o.max_fields as u32 + 1) as usize,
    };
    let mut fields: Vec<Field> = (0..n).map(|i| field(i, &boundary, o)).collect();
    if !fields.is_empty() && fields.len() < o.max_fields && draw(16) == 15 {
        // the same field again
        let again = fields[draw(fields.len() as u32) as usize].clone();
        let at = draw(fields.len() as u32 + 1) as usize;
        fields.insert(at, again);
    }
    if o.max_fields >= 5 && draw(600) == 599 {
        // a great many of them
        let n = pick(&[17usize, 33, 65, 129, 256, 257, 300]);
        let names = pick(&[1usize, 10, 1000]);
        crate::core::probe("many-fields");
        for i in fields.len()..n {
            let data = vec![b'a' + (i % 26) as u8; i % 40];
            fields.push(Field { name: format!("m{}", i % names), filename: if i % 3 == 0 { Some(format!("{}.bin", i)) } else { None }, ctype: None, data });
        }
    }
    Form { boundary, fields }
}

pub fn field(i: usize, boundary: &str, o: &Opts) -> Field {
    Field { name: name(i), filename: filename(), ctype: ctype(), data: data(boundary, o) }
}

pub fn name(i: usize) -> String {
    match draw(16) {
        0 | 1 | 2 | 3 | 4 | 5 | 6 => format!("f{}", i),
        7 | 8 => "dup".into(),
        9 => "na\u{ef}ve \u{4e16}".into(),
        10 => "a b-c_d[0].x".into(),
        11 => "dup2".into(),
        12 => pick(&["", " ", "a;b", "a; filename=x", "name=", "filename=\u{e9}", "x; name=y;"]).to_string(),
        13 => pick(&["  lead", "trail ", "\tt\t", "'q'", "%22", "a\\b", "%20+&=", "e\u{301}", "\u{feff}bom", "Dup", "DUP", "dup[]", "dup ", " dup", "a[b][c]", "user.name", "_charset_", "&#39;", "form-data", "name"]).to_string(),
        14 => format!("{}{}", "long".repeat(1 + draw(200) as usize), i),
        15 if draw(2) == 1 => spiced(pick(&["field", "dup", "", "f1"])),
        _ => random_text(1),
    }
}
/// Any characters that may stand between quotes; no dash, it could be part of a delimiter.
pub fn random_text(min: usize) -> String {
    let n = min + draw(12) as usize;
    let seed = draw(1 << 30);
    let mut r = Rng::new(seed as u64);
    (0..n)
        .map(|_| match r.below(8) {
            0 => uchar(&mut r),
            1 => ['\u{85}', '\u{a0}', '\u{301}', '\u{200d}', '\u{fffd}', '\u{10ffff}', '\u{7ff}', '\u{800}'][r.below(8) as usize],
            2 => ' ',
            _ => match (0x21 + r.below(0x5e) as u8) as char {
                '"' | '-' => 'q',
                c => c,
            },
        })
        .collect()
}
/// An ordinary text with pieces about it that some convention or other gives a meaning; none
/// of them has one here.
pub fn spiced(base: &str) -> String {
    const ATOMS: &[&str] = &[
        "%00", "%22", "%0d%0a", "%2F", "%5C", "%25", "%20", "+", "&quot;", "&amp;", "&#34;", "&lt;", "[]", "[0]", "*", "''", "utf8''", "=?utf_8?B?YQ==?=", "\\", "\\n", "\\\\", "/", "./", "../", "C:\\", "\u{a0}",
        "\u{feff}", "\u{3000}", "\u{2028}", "\u{ff02}", "\u{201c}", " ", "  ", "\t", ";", ",", "=", "'", "`", "$(x)", "~", "#", "?", ":", "|", "<", ">", "{", "}", "@", "^", "(", ")", "_", ".", "!", "&", ".tar.gz", "~1", "fakepath\\", "\u{202e}",
        "\u{212a}", "\u{130}", "\u{df}", "A", "\u{c4}", "0", "null",
    ];
    let mut t = base.to_string();
    for _ in 0..1 + draw(2) {
        let a = pick(ATOMS);
        match draw(4) {
            0 => t = format!("{}{}", a, t),
            1 => t = format!("{}{}{}", a, t, a),
            2 => {
                let at = t.char_indices().map(|c| c.0).nth(t.chars().count() / 2).unwrap_or(0);
                t.insert_str(at, a);
            }
            _ => t.push_str(a),
        }
    }
    t
}
pub fn filename() -> Option<String> {
    match draw(13) {
        11 => Some(spiced(pick(&["report.txt", "a b", "", "x"]))),
        0 | 1 | 2 | 3 | 4 | 5 => None,
        6 => Some("file.bin".into()),
        7 => Some("r\u{e9}sum\u{e9} (1).txt".into()),
        8 => Some("../../etc/passwd".into()),
        9 if draw(2) == 1 => Some(random_text(1)),
        9 => Some(String::new()),
        10 => Some(
            pick(&["C:\\dir\\x.doc", "a;b.txt", "x; name=y", " s p ", "name=z", "filename=w", ".hidden", "..", "/abs", "nul\u{200b}l", "%2e%2e%2f", "a=b;c=d"])
                .to_string(),
        ),
        _ => Some(format!("{}.bin", "n".repeat(draw(600) as usize))),
    }
}
pub const CTYPES: &[&str] = &[
    "text/plain",
    "text/plain; charset=utf-8",
    "text/html",
    "application/octet-stream",
    "image/png",
    "application/x-tar",
    "multipart/mixed; boundary=inner",
    "application/json",
    "message/rfc822",
    "text/plain; charset=iso-8859-1",
    "image/svg+xml",
    "text/csv",
    "application/x-text",
    "text/vnd.x+xml",
    "TEXT/Plain",
    "text/plain;charset=\"utf-8\"",
    "application/text",
    "x-text/plain",
    "font/ttf",
    "application/vnd.api+json; v=1",
];
pub fn ctype() -> Option<String> {
    match draw(3) {
        0 | 1 => None,
        _ => Some(match draw(4) {
            0 | 1 | 2 => pick(CTYPES).to_string(),
            _ => any_ctype(),
        }),
    }
}

/// a legal media type put together from parts
pub fn any_ctype() -> String {
    let mut t = format!(
        "{}/{}",
        pick(&["text", "application", "text", "image", "TEXT", "Text", "audio", "video", "message", "model", "x-top", "texts", "multipart"]),
        pick(&[
            "plain", "html", "css", "csv", "xml", "javascript", "json", "x-binary", "octet-stream", "markdown", "calendar", "rtf", "vcard",
            "tab-separated-values", "x-www-form-urlencoded", "PLAIN", "x", "text", "form-data", "zip", "vnd.a.b-c_d",
        ])
    );
    if draw(4) == 0 {
        t += pick(&["+xml", "+json", "+zip", "+text"]);
    }
    if draw(3) == 0 {
        t += pick(&["; charset=utf-8", ";charset=utf-16", "; charset=latin1", "; format=flowed", "; name=\"a.txt\"", "; boundary=zz", "; a=1; b=\"2\"", "; charset=\"UTF-8\""]);
    }
    t
}

fn uchar(r: &mut Rng) -> char {
    match r.below(6) {
        0 => 'a',
        1 => '\u{e9}',
        2 => '\u{20ac}',
        3 => '\u{1f600}',
        4 => 'z',
        _ => '\u{4e16}',
    }
}

/// Field data made of pieces that stress the delimiter search; never contains "--boundary".
pub fn data(boundary: &str, o: &Opts) -> Vec<u8> {
    let delim = format!("--{}", boundary);
    let full = format!("\r\n{}", delim);
    let mut d: Vec<u8> = Vec::new();
    let pieces = draw(6);
    for _ in 0..pieces {
        match draw(if o.text { 10 } else { 12 }) {
            0 => d.extend_from_slice(b"value"),
            1 => {
                // near miss: proper prefix of the delimiter
                let l = draw(full.len() as u32) as usize;
                d.extend_from_slice(&full.as_bytes()[..l]);
            }
            2 => {
                let l = draw(full.len() as u32) as usize;
                d.extend_from_slice(&full.as_bytes()[..l]);
                d.push(b'!');
            }
            3 => d.extend_from_slice(pick(&[&b"\r\n"[..], b"\r", b"\n", b"\r\r\n", b"\n\r", b"\r\n\r\n", b"\r\n-", b"\r\n--", b"-", b"--"])),
            4 | 5 => {
                // up to a size of interest
                let target = match draw(4) {
                    0 => draw(64) as usize,
                    1 => (pick(&[1024usize, 2048, 4096, 8192, 1000, 10 * 1024, 16384, 7168]) + draw(17) as usize).saturating_sub(8),
                    2 => draw(3000) as usize,
                    _ => draw(o.max_len as u32) as usize,
                }
                .min(o.max_len);
                let seed = draw(1 << 12) as u64;
                let mut r = Rng::new(seed);
                if target > d.len() {
                    let need = target - d.len();
                    if o.text {
                        while d.len() < target {
                            d.push(b'a' + r.below(26) as u8);
                        }
                    } else {
                        match seed % 4 {
                            0 => d.extend((0..need).map(|_| b'a' + r.below(26) as u8)),
                            1 => d.extend((0..need).map(|_| r.next() as u8)),
                            2 => d.extend((0..need).map(|_| b"\r\n-a"[r.below(4) as usize])),
                            _ => {
                                let b = full.as_bytes();
                                d.extend((0..need).map(|_| b[r.below(b.len() as u32) as usize]))
                            }
                        }
                    }
                }
            }
            6 | 7 => {
                let n = draw(40);
                let mut r = Rng::new(draw(1 << 12) as u64);
                let mut s = String::new();
                for _ in 0..n {
                    s.push(uchar(&mut r));
                }
                d.extend_from_slice(s.as_bytes());
            }
            8 => d.extend_from_slice(
                pick(&[
                    "\u{feff}", "\0", " ", "\t", "line\r\n", "line\n", "\u{2028}", "e\u{301}", "%20+%2B&a=b", "\"quoted\"", "\u{1a}", "\u{fffd}",
                    "--", "--\r\n", "\r\n\r\n", "Content-Disposition: form-data; name=\"x\"\r\n\r\n", "\u{10ffff}", "\u{80}", "\u{7f}", "\\",
                ])
                .as_bytes(),
            ),
            9 => {
                // the same piece at the start
                let p = pick(&["\u{feff}", "\r\n", "\0", " ", "\n", "--", "\u{feff}\u{feff}"]);
                d.splice(..0, p.bytes());
            }
            10 => {
                let n = draw(30) as usize;
                let mut r = Rng::new(draw(1 << 12) as u64);
                d.extend((0..n).map(|_| r.next() as u8));
            }
            _ => d.extend_from_slice(pick(&[&b"\xff"[..], b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\x80", b"\xed\xa0\x80"])),
        }
    }
    if o.max_len >= 10_000 && draw(1500) == 1499 {
        // beyond any buffer
        let n = pick(&[65_535usize, 65_536, 65_537, 70_000, 131_072, 262_145]);
        crate::core::probe("large-field");
        let mut r = Rng::new(draw(1 << 12) as u64);
        while d.len() < n {
            d.push(b'a' + r.below(26) as u8);
        }
    }
    scrub(&mut d, delim.as_bytes());
    d
}

/// Break every occurrence of the delimiter.
pub fn scrub(d: &mut [u8], delim: &[u8]) {
    let mut from = 0;
    while let Some(i) = contains(&d[from..], delim) {
        let j = from + i + delim.len() - 1;
        d[j] = if d[j] == b'*' { b'~' } else { b'*' };
        from += i;
    }
}

/// Encode as a request body; header layout and padding are drawn.
pub fn encode(f: &Form) -> Enc {
    encode_opt(f, true)
}

pub fn encode_opt(f: &Form, fancy: bool) -> Enc {
    let mut b: Vec<u8> = Vec::new();
    let mut marks = vec![0];
    let mut spans = Vec::new();
    let delim = format!("--{}", f.boundary);
    if fancy {
        match draw(6) {
            0 | 1 | 2 | 3 => {}
            4 => b.extend_from_slice(b"\r\n"),
            _ => {
                b.extend_from_slice(b"This is a preamble.\r\nIgnore it.");
                scrub(&mut b, delim.as_bytes());
                b.extend_from_slice(b"\r\n");
            }
        }
        if b.len() > 2 && contains(&[&b[..], delim.as_bytes()].concat(), delim.as_bytes()) != Some(b.len()) {
            b.clear();
        }
    }
    for fl in &f.fields {
        marks.push(b.len());
        b.extend_from_slice(delim.as_bytes());
        marks.push(b.len());
        b.extend_from_slice(b"\r\n");
        let hs = b.len();
        marks.push(hs);
        let mut cd = format!("form-data; name=\"{}\"", fl.name);
        if let Some(n) = &fl.filename {
            cd.push_str(&format!("; filename=\"{}\"", n));
        }
        let style = if fancy { draw(12) } else { 0 };
        let (hcd, hct) = match style {
            9 => ("content-disposition", "content-type"),
            10 => ("CONTENT-DISPOSITION", "CONTENT-TYPE"),
            _ => ("Content-Disposition", "Content-Type"),
        };
        let lcd = format!("{}: {}\r\n", hcd, cd);
        let lct = fl.ctype.as_ref().map(|c| format!("{}: {}\r\n", hct, c)).unwrap_or_default();
        let extra = match style {
            6 => "Content-Transfer-Encoding: binary\r\n".to_string(),
            7 => {
                let n = match draw(4) {
                    0 => 900 + draw(300) as usize,
                    1 => 1900 + draw(400) as usize,
                    2 => draw(5500) as usize,
                    _ => draw(200) as usize,
                };
                format!("X-Pad: {}\r\n", "p".repeat(n + 1))
            }
            8 => "X-A: 1\r\nX-B: 2\r\n".to_string(),
            _ => String::new(),
        };
        match style {
            5 => {
                b.extend_from_slice(lct.as_bytes());
                b.extend_from_slice(lcd.as_bytes());
            }
            8 => {
                b.extend_from_slice(b"X-A: 1\r\n");
                b.extend_from_slice(lcd.as_bytes());
                b.extend_from_slice(b"X-B: 2\r\n");
                b.extend_from_slice(lct.as_bytes());
            }
            _ => {
                b.extend_from_slice(lcd.as_bytes());
                b.extend_from_slice(extra.as_bytes());
                b.extend_from_slice(lct.as_bytes());
            }
        }
        marks.push(b.len());
        b.extend_from_slice(b"\r\n");
        let ds = b.len();
        marks.push(ds);
        b.extend_from_slice(&fl.data);
        let de = b.len();
        marks.push(de);
        b.extend_from_slice(b"\r\n");
        spans.push((hs, ds, de));
    }
    marks.push(b.len());
    b.extend_from_slice(delim.as_bytes());
    marks.push(b.len());
    b.extend_from_slice(b"--");
    let close_end = b.len();
    marks.push(close_end);
    if fancy {
        match draw(4) {
            0 | 1 => b.extend_from_slice(b"\r\n"),
            2 => {}
            _ => b.extend_from_slice(b"\r\nepilogue, to be ignored\r\n"),
        }
    } else {
        b.extend_from_slice(b"\r\n");
    }
    Enc { bytes: b, marks, spans, close_end }
}

/// Strict reference decoder of a body produced by a client of this library.
pub fn decode(body: &[u8], boundary: &str) -> Result<Vec<Field>, String> {
    let delim = format!("--{}", boundary).into_bytes();
    let full = [b"\r\n".as_ref(), &delim].concat();
    let mut p = 0;
    if body.starts_with(&full) {
        p = 2;
    }
    if !body[p..].starts_with(&delim) {
        return Err(format!("body does not start with its delimiter: {}", show(body)));
    }
    p += delim.len();
    let mut out = Vec::new();
    loop {
        let rest = &body[p..];
        if rest.starts_with(b"--") {
            let tail = &rest[2..];
            if tail.is_empty() || tail == b"\r\n" {
                return Ok(out);
            }
            return Err(format!("bytes after the closing delimiter: {}", show(tail)));
        }
        if !rest.starts_with(b"\r\n") {
            return Err(format!("delimiter followed by {}", show(&rest[..rest.len().min(20)])));
        }
        p += 2;
        let rest = &body[p..];
        let he = contains(rest, b"\r\n\r\n").ok_or_else(|| format!("headers of field {} not terminated", out.len()))?;
        let head = std::str::from_utf8(&rest[..he]).map_err(|_| "headers are not UTF-8".to_string())?;
        let mut fld = Field { name: String::new(), filename: None, ctype: None, data: Vec::new() };
        let mut have = false;
        for l in head.split("\r\n") {
            let (k, v) = l.split_once(": ").ok_or_else(|| format!("bad header line {:?}", l))?;
            if k.eq_ignore_ascii_case("content-disposition") {
                if have {
                    return Err("two Content-Disposition headers".into());
                }
                have = true;
                let v = v.strip_prefix("form-data; name=\"").ok_or_else(|| format!("bad disposition {:?}", v))?;
                let (n, r) = v.split_once('"').ok_or_else(|| format!("bad disposition {:?}", v))?;
                fld.name = n.to_string();
                if !r.is_empty() {
                    let r = r.strip_prefix("; filename=\"").and_then(|r| r.strip_suffix('"'));
                    fld.filename = Some(r.ok_or_else(|| format!("bad disposition {:?}", v))?.to_string());
                }
            } else if k.eq_ignore_ascii_case("content-type") {
                if fld.ctype.is_some() {
                    return Err("two Content-Type headers".into());
                }
                fld.ctype = Some(v.to_string());
            }
        }
        if !have {
            return Err(format!("field {} has no Content-Disposition", out.len()));
        }
        p += he + 4;
        // an empty field's delimiter may directly follow the blank line's CRLF? No: it needs its own CRLF.
        let rest = &body[p..];
        let de = contains(rest, &full).ok_or_else(|| format!("field {} ({}) is not terminated by a delimiter", out.len(), fld.name))?;
        fld.data = rest[..de].to_vec();
        out.push(fld);
        p += de + full.len();
    }
}
