//! A real `tiny_http` server on a simulated socket.
//!
//! The server's threads are not scheduled by the simulator, but they only ever run while the
//! simulated run waits for them: one connection exists at a time, what each `recv` yields is
//! decided before the connection is made, and a run ends only when the server has closed it.
use crate::core::unarmed;
use std::collections::VecDeque;
use std::io::ErrorKind;
use std::os::raw::{c_int, c_void};
use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
use std::time::Duration;
use tiny_http::{Request, Server};

#[derive(Default)]
pub struct Plan {
    /// the head is handed over in one piece
    pub head: usize,
    /// lengths of the pieces in which the rest arrives; what is left over arrives as asked for
    pub cuts: VecDeque<usize>,
    /// at the end of the data: 0 is an orderly end
    pub end: i32,
}

#[derive(Default)]
struct Conn {
    pending: Option<c_int>,
    data: Vec<u8>,
    pos: usize,
    plan: Plan,
    out: Vec<u8>,
}

static CONN: Mutex<Option<Conn>> = Mutex::new(None);
static CAME: Condvar = Condvar::new();

fn conn() -> MutexGuard<'static, Option<Conn>> {
    CONN.lock().unwrap_or_else(|e| e.into_inner())
}

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| Server::http("127.0.0.1:0").expect("tiny_http"))
}

/// One connection with one request.
pub struct Tiny {
    pub req: Option<Request>,
    fd: c_int,
}

impl Tiny {
    /// `None`: the server did not accept the head of the request.
    pub fn new(raw: Vec<u8>, plan: Plan) -> Option<Tiny> {
        unarmed(|| {
            let srv = server();
            let mut fds = [0 as c_int; 2];
            unsafe {
                assert!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) == 0, "socketpair");
            }
            *conn() = Some(Conn { pending: Some(fds[1]), data: raw, plan, ..Conn::default() });
            CAME.notify_all();
            let mut t = Tiny { req: None, fd: fds[0] };
            // the server takes the connection up before this thread waits for its end
            let mut left = 5000;
            while t.req.is_none() && left > 0 {
                t.req = srv.recv_timeout(Duration::from_millis(100)).expect("tiny_http");
                left -= 100;
                if t.req.is_none() && t.closed(0) {
                    break;
                }
            }
            t.req.is_some().then_some(t)
        })
    }
    fn closed(&self, ms: i32) -> bool {
        let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, ms) > 0 }
    }
    /// Ends the connection; what the server sent.
    pub fn finish(mut self) -> Vec<u8> {
        self.end();
        conn().take().unwrap_or_default().out
    }
    fn end(&mut self) {
        if self.fd < 0 {
            return;
        }
        unarmed(|| {
            self.req = None;
            assert!(self.closed(10_000), "tiny_http keeps its connection");
            unsafe { libc::close(self.fd) };
            self.fd = -1;
        })
    }
}

impl Drop for Tiny {
    fn drop(&mut self) {
        self.end();
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn loopback(addr: *mut libc::sockaddr, len: *mut libc::socklen_t) {
    if addr.is_null() {
        return;
    }
    let a = libc::sockaddr_in {
        sin_family: libc::AF_INET as u16,
        sin_port: 4321u16.to_be(),
        sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
        sin_zero: [0; 8],
    };
    let n = std::mem::size_of_val(&a).min(*len as usize);
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n);
    *len = n as u32;
}

// Nothing else in this program uses these calls.

#[no_mangle]
pub unsafe extern "C" fn accept4(_: c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, _: c_int) -> c_int {
    let mut c = conn();
    loop {
        if let Some(fd) = c.as_mut().and_then(|c| c.pending.take()) {
            loopback(addr, len);
            return fd;
        }
        c = CAME.wait(c).unwrap_or_else(|e| e.into_inner());
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(_: c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> c_int {
    loopback(addr, len);
    0
}

#[no_mangle]
pub unsafe extern "C" fn recv(_: c_int, buf: *mut c_void, n: usize, _: c_int) -> isize {
    let mut g = conn();
    let Some(c) = g.as_mut() else { return 0 };
    let mut k = n.min(c.data.len() - c.pos);
    if c.pos < c.plan.head {
        k = k.min(c.plan.head - c.pos);
    } else {
        if let Some(m) = c.plan.cuts.front_mut() {
            k = k.min(*m);
            *m -= k;
            if *m == 0 {
                c.plan.cuts.pop_front();
            }
        }
    }
    if k == 0 && n > 0 && c.plan.end != 0 {
        set_errno(c.plan.end);
        return -1;
    }
    std::ptr::copy_nonoverlapping(c.data[c.pos..].as_ptr(), buf as *mut u8, k);
    c.pos += k;
    drop(g);
    // by the run itself, not by a thread of the server
    if crate::core::have_ctx() {
        crate::core::ev("recv", k as u64, n as u64);
    }
    k as isize
}

#[no_mangle]
pub unsafe extern "C" fn send(_: c_int, buf: *const c_void, n: usize, _: c_int) -> isize {
    if let Some(c) = conn().as_mut() {
        c.out.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
    }
    n as isize
}

/// how a broken connection looks to the reader
pub fn broken(kind: ErrorKind) -> i32 {
    match kind {
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        _ => libc::EPIPE,
    }
}
