//! Simulated body sources and byte sinks.
use crate::core::*;
use crate::sched;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Seg {
    Whole,
    Fixed(usize),
    Cuts(Vec<usize>),
    Random(usize),
}

#[derive(Clone, Debug)]
pub struct SrcFault {
    pub pos: usize,
    pub kind: ErrorKind,
    pub left: u32,
}

#[derive(Clone, Debug, Copy, PartialEq)]
pub enum End {
    Eof,
    /// persistent error
    Err(ErrorKind),
}

#[derive(Debug)]
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub stop: usize,
    pub end: End,
    pub seg: Seg,
    pub faults: Vec<SrcFault>,
    /// one read in n is interrupted (0 = never)
    pub eintr: u32,
    pub eintr_run: u32,
    /// interruptions still to come in a row
    pub burst: u32,
    pub random_left: u32,
    pub reads: u64,
    pub zero_reads: u64,
    pub errors: u64,
    pub budget: u64,
    /// kind of the last error returned and not yet acknowledged
    pub last_err: Option<ErrorKind>,
    pub panic_at: Option<usize>,
    /// hang up after delivering: kinds seen
    pub quiet: bool,
    /// reading again after the end was reported fails, as it does with some readers
    pub once: bool,
}

pub type SrcH = Arc<Mutex<Src>>;

#[derive(Clone, Debug)]
pub struct SimRead(pub SrcH);

pub fn src(data: Arc<Vec<u8>>, seg: Seg) -> (SimRead, SrcH) {
    let n = data.len();
    let h = Arc::new(Mutex::new(Src {
        budget: 30_000 + 8 * n as u64,
        stop: n,
        data,
        pos: 0,
        end: End::Eof,
        seg,
        faults: Vec::new(),
        eintr: 0,
        eintr_run: 0,
        burst: 0,
        random_left: 400,
        reads: 0,
        zero_reads: 0,
        errors: 0,
        last_err: None,
        panic_at: None,
        quiet: false,
        once: false,
    }));
    (SimRead(h.clone()), h)
}

pub fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn mkerr(kind: ErrorKind) -> io::Error {
    if kind == ErrorKind::Interrupted {
        io::Error::from(kind)
    } else {
        io::Error::new(kind, "simulated fault")
    }
}

pub fn kind_name(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::Interrupted => "source:Interrupted",
        ErrorKind::WouldBlock => "source:WouldBlock",
        ErrorKind::TimedOut => "source:TimedOut",
        ErrorKind::ConnectionReset => "source:ConnectionReset",
        ErrorKind::ConnectionAborted => "source:ConnectionAborted",
        ErrorKind::BrokenPipe => "source:BrokenPipe",
        ErrorKind::UnexpectedEof => "source:UnexpectedEof",
        ErrorKind::NotConnected => "source:NotConnected",
        _ => "source:Other",
    }
}

impl Src {
    fn next_len(&mut self) -> usize {
        match &self.seg {
            Seg::Whole => usize::MAX,
            Seg::Fixed(n) => *n,
            Seg::Cuts(c) => {
                let p = self.pos;
                c.iter().filter(|&&x| x > p).min().map_or(usize::MAX, |x| x - p)
            }
            Seg::Random(m) => {
                if self.random_left == 0 {
                    usize::MAX
                } else {
                    self.random_left -= 1;
                    1 + draw(*m as u32) as usize
                }
            }
        }
    }
    /// Everything still to come is delivered without faults.
    pub fn heal(&mut self) {
        self.faults.clear();
        self.eintr = 0;
    }
}

/// How many interruptions follow this one for certain.
pub fn next_burst(now: u32) -> u32 {
    if now > 0 {
        return now - 1;
    }
    if draw(80) == 79 {
        probe("interrupted-for-long");
        pick(&[8u32, 12, 20, 70, 140])
    } else {
        0
    }
}

impl Read for SimRead {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        sched::yield_point("src");
        let mut s = lk(&self.0);
        if out.is_empty() {
            return Ok(0);
        }
        s.reads += 1;
        if s.reads > s.budget {
            let b = s.budget;
            drop(s);
            violate("spin", format!("the source was read more than {} times without the call returning", b));
        }
        if let Some(p) = s.panic_at {
            if s.pos >= p {
                drop(s);
                fault("source:panic");
                panic!("simulated panic of the body source");
            }
        }
        if s.eintr > 0 && (s.burst > 0 || s.eintr_run < 5 && draw(s.eintr) == s.eintr - 1) {
            s.eintr_run += 1;
            s.burst = next_burst(s.burst);
            s.errors += 1;
            fault("source:Interrupted");
            return Err(ErrorKind::Interrupted.into());
        }
        s.eintr_run = 0;
        let pos = s.pos;
        if let Some(f) = s.faults.iter_mut().find(|f| f.pos == pos && f.left > 0) {
            f.left -= 1;
            let k = f.kind;
            s.errors += 1;
            s.last_err = Some(k);
            fault(kind_name(k));
            ev("src-err", pos as u64, k as u64);
            return Err(mkerr(k));
        }
        if pos >= s.stop {
            return match s.end {
                End::Eof => {
                    if s.once && s.zero_reads > 0 {
                        fault("source:read-after-end");
                        return Err(io::Error::new(ErrorKind::InvalidInput, "the source was read after its end"));
                    }
                    s.zero_reads += 1;
                    ev("src-eof", pos as u64, 0);
                    Ok(0)
                }
                End::Err(k) => {
                    s.errors += 1;
                    s.last_err = Some(k);
                    fault(kind_name(k));
                    Err(mkerr(k))
                }
            };
        }
        let mut n = s.next_len().min(out.len()).min(s.stop - pos);
        if let Some(d) = s.faults.iter().filter(|f| f.pos > pos && f.left > 0).map(|f| f.pos - pos).min() {
            n = n.min(d);
        }
        if let Some(p) = s.panic_at {
            n = n.min(p - pos);
        }
        out[..n].copy_from_slice(&s.data[pos..pos + n]);
        s.pos += n;
        if !s.quiet {
            ev("src", pos as u64, n as u64);
        }
        Ok(n)
    }
}

/// Draw how a stream of `len` bytes is segmented; `marks` are interesting positions.
pub fn draw_seg(len: usize, marks: &[usize]) -> Seg {
    match draw(8) {
        0 => Seg::Whole,
        1 => {
            nontrivial();
            Seg::Fixed(pick(&[1usize, 2, 3, 5, 7, 16, 61, 509, 1000, 1023, 1024, 1025, 1026, 1400, 2048, 4096, 8191, 8192]))
        }
        2 | 3 | 4 | 5 => {
            nontrivial();
            let k = 1 + draw(6);
            let mut c = Vec::new();
            for _ in 0..k {
                c.push(draw_pos(len, marks));
            }
            Seg::Cuts(c)
        }
        6 => {
            nontrivial();
            Seg::Random(pick(&[4usize, 40, 400, 3000]))
        }
        _ => {
            nontrivial();
            // everything up to one mark at once, then cuts right around it
            let p = draw_pos(len, marks);
            let d = draw(5) as usize;
            Seg::Cuts(vec![p, p + 1, p + 2 + d])
        }
    }
}

/// A position in 0..=len, usually near an interesting one or a buffer edge.
pub fn draw_pos(len: usize, marks: &[usize]) -> usize {
    let p = match draw(6) {
        0 | 1 | 2 if !marks.is_empty() => {
            let m = marks[draw(marks.len() as u32) as usize];
            match draw(4) {
                // within the delimiter or the headers
                3 => (m + draw(81) as usize).saturating_sub(40),
                _ => (m + draw(9) as usize).saturating_sub(4),
            }
        }
        3 if len > 1024 => {
            let base = pick(&[1024usize, 2048, 8192, 7168, 9216, 16384, 4096]);
            (base + draw(9) as usize).saturating_sub(4)
        }
        _ => draw(len as u32 + 1) as usize,
    };
    p.min(len)
}

// ---- sinks ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WBad {
    Err(ErrorKind),
    Zero,
}

#[derive(Debug)]
pub struct Sink {
    pub buf: Vec<u8>,
    /// one write in n is short / interrupted (0 = never)
    pub short: u32,
    pub eintr: u32,
    pub eintr_run: u32,
    pub burst: u32,
    pub max: usize,
    /// at this many accepted bytes, fail `left` times (u32::MAX = forever)
    pub fail: Option<(usize, WBad, u32)>,
    pub fails: u32,
    pub calls: u64,
    pub flushes: u64,
    /// fail the n-th flush, counted from 1
    pub flush_fail: Option<(u64, ErrorKind)>,
    /// lengths at which bytes were accepted after a hard failure
    pub after_fail: usize,
}

pub type SinkH = Arc<Mutex<Sink>>;
#[derive(Clone, Debug)]
pub struct SimWrite(pub SinkH);

pub fn sink() -> (SimWrite, SinkH) {
    let h = Arc::new(Mutex::new(Sink {
        buf: Vec::new(),
        short: 0,
        eintr: 0,
        eintr_run: 0,
        burst: 0,
        max: usize::MAX,
        fail: None,
        fails: 0,
        calls: 0,
        flushes: 0,
        flush_fail: None,
        after_fail: 0,
    }));
    (SimWrite(h.clone()), h)
}

impl Sink {
    pub fn draw_soft(&mut self) {
        match draw(5) {
            0 => {}
            1 => self.short = 2,
            2 => self.eintr = 3,
            3 => {
                self.short = 3;
                self.eintr = 4;
            }
            _ => self.max = pick(&[1usize, 2, 3, 7, 64, 1000]),
        }
    }
}

impl Write for SimWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sched::yield_point("sink");
        let mut s = lk(&self.0);
        s.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if s.calls > 2_000_000 {
            drop(s);
            violate("spin", "the writer was called more than 2000000 times".into());
        }
        if let Some((at, bad, left)) = s.fail {
            if s.buf.len() >= at && left > 0 {
                if left != u32::MAX {
                    s.fail = Some((at, bad, left - 1));
                }
                s.fails += 1;
                let n = s.buf.len();
                return match bad {
                    WBad::Err(k) => {
                        fault("sink:error");
                        ev("sink-err", n as u64, k as u64);
                        Err(mkerr(k))
                    }
                    WBad::Zero => {
                        fault("sink:zero");
                        Ok(0)
                    }
                };
            }
        }
        if s.eintr > 0 && (s.burst > 0 || s.eintr_run < 5 && draw(s.eintr) == s.eintr - 1) {
            s.eintr_run += 1;
            s.burst = next_burst(s.burst);
            fault("sink:Interrupted");
            return Err(ErrorKind::Interrupted.into());
        }
        s.eintr_run = 0;
        let mut n = b.len().min(s.max);
        if s.max < b.len() {
            nontrivial();
        }
        if let Some((at, _, left)) = s.fail {
            if left > 0 {
                n = n.min(at - s.buf.len());
            }
        }
        if s.short > 0 && n > 1 && draw(s.short) == s.short - 1 {
            n = 1 + draw((n - 1) as u32) as usize;
            fault("sink:short");
        }
        if s.fails > 0 {
            s.after_fail += n;
        }
        ev("sink", s.buf.len() as u64, n as u64);
        s.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = lk(&self.0);
        s.flushes += 1;
        match s.flush_fail {
            Some((n, k)) if s.flushes == n => {
                fault("sink:flush");
                s.fails += 1;
                Err(mkerr(k))
            }
            _ => Ok(()),
        }
    }
}
