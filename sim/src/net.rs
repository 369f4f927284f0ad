//! A simulated connection between two tasks: bounded buffers, delay, segmentation, cuts.
use crate::core::*;
use crate::io::{lk, mkerr};
use crate::sched::{self, Wake};
use hyper::net::{NetworkConnector, NetworkStream};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    /// the sender's later bytes vanish and the receiver sees the end of the stream
    Fin,
    /// both ends get an error
    Reset,
    /// later bytes are never delivered
    Stall,
}

#[derive(Debug)]
pub struct Dir {
    q: VecDeque<(u64, Vec<u8>)>,
    inflight: usize,
    pub sent: usize,
    pub taken: usize,
    wclosed: bool,
    rclosed: bool,
    reader: Option<usize>,
    writer: Option<usize>,
    last: u64,
    pub cut: Option<(usize, Cut)>,
    stalled: bool,
}

#[derive(Debug)]
pub struct Net {
    pub d: [Dir; 2],
    pub cap: usize,
    /// largest delay of a packet in nanoseconds
    pub latency: u32,
    /// largest piece delivered by one read (0 = everything available)
    pub seg: u32,
    pub short: u32,
    reset: bool,
    /// a write to a closed peer is swallowed instead of failing
    pub linger: bool,
    pub faulty: bool,
    pub deadlock: bool,
    small: u32,
}

pub type NetH = Arc<Mutex<Net>>;

struct EndPoint {
    n: NetH,
    side: usize,
}

/// One end of the connection.
#[derive(Clone)]
pub struct Sock {
    e: Arc<EndPoint>,
    timeout: Arc<Mutex<Option<u64>>>,
}

fn dir() -> Dir {
    Dir {
        q: VecDeque::new(),
        inflight: 0,
        sent: 0,
        taken: 0,
        wclosed: false,
        rclosed: false,
        reader: None,
        writer: None,
        last: 0,
        cut: None,
        stalled: false,
    }
}

/// A connection; side 0 is the client.
pub fn pair() -> (Sock, Sock, NetH) {
    let n = Arc::new(Mutex::new(Net {
        d: [dir(), dir()],
        cap: pick(&[65536usize, 8192, 1024, 1, 7, 100, 3000]),
        latency: pick(&[0u32, 0, 1_000_000, 200_000_000]),
        seg: pick(&[0u32, 0, 1, 5, 100, 1448]),
        short: pick(&[0u32, 0, 2, 4]),
        reset: false,
        linger: true,
        faulty: false,
        deadlock: false,
        small: 3000,
    }));
    let s = |side| Sock { e: Arc::new(EndPoint { n: n.clone(), side }), timeout: Arc::default() };
    (s(0), s(1), n.clone())
}

impl Net {
    fn wake_all(&mut self) {
        for d in self.d.iter_mut() {
            if let Some(t) = d.reader.take() {
                sched::wake(t);
            }
            if let Some(t) = d.writer.take() {
                sched::wake(t);
            }
        }
    }
    fn close(&mut self, side: usize, write: bool, read: bool) {
        if write {
            self.d[side].wclosed = true;
        }
        if read {
            let d = &mut self.d[1 - side];
            d.rclosed = true;
            d.q.clear();
            d.inflight = 0;
        }
        self.wake_all();
    }
}

impl Drop for EndPoint {
    fn drop(&mut self) {
        lk(&self.n).close(self.side, true, true);
    }
}

fn now() -> u64 {
    with(|s| s.vtime)
}

impl Sock {
    pub fn close(&self) {
        lk(&self.e.n).close(self.e.side, true, true);
        ev("net-close", self.e.side as u64, 0);
    }
    fn wait(&self, until: Option<u64>, what: &'static str) -> io::Result<bool> {
        match sched::block(until) {
            Wake::Woken => Ok(true),
            Wake::Timeout => Ok(false),
            Wake::Deadlock => {
                let mut n = lk(&self.e.n);
                if n.faulty {
                    probe("gave-up-waiting");
                    Err(mkerr(ErrorKind::TimedOut))
                } else {
                    n.deadlock = true;
                    drop(n);
                    violate("deadlock", format!("both ends of a healthy connection wait forever (side {} in {})", self.e.side, what))
                }
            }
        }
    }
}

impl Read for Sock {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::yield_point("net-read");
        if buf.is_empty() {
            return Ok(0);
        }
        let me = self.e.side;
        let limit = lk(&self.timeout).map(|t| now() + t);
        loop {
            let t = now();
            let mut g = lk(&self.e.n);
            if g.reset {
                return Err(mkerr(ErrorKind::ConnectionReset));
            }
            let (seg, small) = (g.seg, g.small);
            let d = &mut g.d[1 - me];
            if let Some((at, front)) = d.q.front_mut() {
                if *at <= t {
                    let mut n = front.len().min(buf.len());
                    if seg > 0 && small > 0 {
                        n = n.min(1 + draw(seg) as usize);
                        nontrivial();
                    }
                    buf[..n].copy_from_slice(&front[..n]);
                    front.drain(..n);
                    if front.is_empty() {
                        d.q.pop_front();
                    }
                    d.inflight -= n;
                    d.taken += n;
                    if let Some(w) = d.writer.take() {
                        sched::wake(w);
                    }
                    g.small = g.small.saturating_sub(1);
                    ev("net-read", me as u64, n as u64);
                    return Ok(n);
                }
                let at = *at;
                let until = limit.map_or(at, |l| l.min(at));
                drop(g);
                self.wait(Some(until), "read")?;
                if limit.map_or(false, |l| now() >= l && l < at) {
                    return Err(mkerr(ErrorKind::TimedOut));
                }
                continue;
            }
            let fin = d.wclosed || matches!(d.cut, Some((c, Cut::Fin)) if d.sent >= c);
            if fin && !d.stalled {
                ev("net-eof", me as u64, 0);
                return Ok(0);
            }
            d.reader = Some(task());
            drop(g);
            if !self.wait(limit, "read")? {
                return Err(mkerr(ErrorKind::TimedOut));
            }
        }
    }
}

impl Write for Sock {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::yield_point("net-write");
        if buf.is_empty() {
            return Ok(0);
        }
        let me = self.e.side;
        loop {
            let t = now();
            let mut g = lk(&self.e.n);
            if g.reset {
                return Err(mkerr(ErrorKind::BrokenPipe));
            }
            let (cap, short, latency, linger, small) = (g.cap, g.short, g.latency, g.linger, g.small);
            let d = &mut g.d[me];
            if d.wclosed {
                return Err(mkerr(ErrorKind::BrokenPipe));
            }
            if d.rclosed {
                if linger {
                    return Ok(buf.len());
                }
                fault("net:peer-closed");
                return Err(mkerr(ErrorKind::BrokenPipe));
            }
            let cap = if small == 0 { cap.max(8192) } else { cap };
            if d.inflight >= cap {
                d.writer = Some(task());
                drop(g);
                self.wait(None, "write")?;
                continue;
            }
            let mut n = buf.len().min(cap - d.inflight);
            if short > 0 && small > 0 && n > 1 && draw(short) == short - 1 {
                n = 1 + draw((n - 1) as u32) as usize;
                fault("net:short-write");
            }
            let mut keep = n;
            let mut reset = false;
            if let Some((c, kind)) = d.cut {
                if d.sent + n > c {
                    keep = c.saturating_sub(d.sent);
                    match kind {
                        Cut::Fin => fault("net:cut"),
                        Cut::Reset => {
                            fault("net:reset");
                            reset = true;
                        }
                        Cut::Stall => {
                            fault("net:stall");
                            d.stalled = true;
                            // the lost bytes still fill the sender's buffer
                            d.inflight += n - keep;
                        }
                    }
                }
            }
            d.sent += n;
            if keep > 0 {
                let delay = if latency > 0 { draw(latency) as u64 } else { 0 };
                if delay > 0 {
                    fault("net:delay");
                }
                d.last = d.last.max(t + delay);
                d.inflight += keep;
                let at = d.last;
                d.q.push_back((at, buf[..keep].to_vec()));
            }
            let r = d.reader.take();
            g.small = g.small.saturating_sub(1);
            if reset {
                g.reset = true;
                g.d[1 - me].q.clear();
                g.wake_all();
            }
            if let Some(r) = r {
                sched::wake(r);
            }
            ev("net-write", me as u64, n as u64);
            return Ok(n);
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl NetworkStream for Sock {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, dur: Option<Duration>) -> io::Result<()> {
        *lk(&self.timeout) = dur.map(|d| d.as_nanos() as u64);
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn close(&mut self, _: std::net::Shutdown) -> io::Result<()> {
        Sock::close(self);
        Ok(())
    }
}

pub fn addr() -> SocketAddr {
    "10.0.0.1:80".parse().unwrap()
}

/// Hands out prepared connections, in order.
pub struct Connector(pub Mutex<Vec<Sock>>, pub Option<ErrorKind>);

impl NetworkConnector for Connector {
    type Stream = Sock;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Sock> {
        if let Some(k) = self.1 {
            fault("net:refused");
            return Err(mkerr(k).into());
        }
        let mut v = lk(&self.0);
        if v.is_empty() {
            return Err(mkerr(ErrorKind::ConnectionRefused).into());
        }
        Ok(v.remove(0))
    }
}
