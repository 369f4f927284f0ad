//! Simulated system-call layer: libc symbols interposed in this binary.
//! In a simulated thread they consult the run's fault plan and log; elsewhere they pass through.
use crate::core::{armed, have_ctx, with};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    Err(i32),
    Zero,
}

#[derive(Clone, Debug, Default)]
pub struct FsPlan {
    /// (n-th creating open, errno)
    pub open_create: Vec<(u32, i32)>,
    /// (n-th non-creating open of a file in scratch, errno)
    pub open_read: Vec<(u32, i32)>,
    /// (n-th write, fault); `write_sticky` makes every later write fail too
    pub write: Vec<(u32, WFault)>,
    pub write_sticky: bool,
    /// bytes that still fit on the disk
    pub space: Option<u64>,
    /// one write in `short` is short (0 = never)
    pub short: u32,
    /// one write in `eintr` is interrupted first (0 = never)
    pub eintr: u32,
    pub mkdir: Vec<(u32, i32)>,
    /// (n-th unlink or rmdir, errno)
    pub remove: Vec<(u32, i32)>,
    pub read: Vec<(u32, i32)>,
    pub read_short: u32,
    pub read_eintr: u32,
}

#[derive(Clone, Debug)]
pub enum FsOp {
    /// path, flags, result fd or -errno
    Open(String, i32, i32),
    /// path, result
    Mkdir(String, i32),
    Unlink(String, i32),
    Rename(String, String, i32),
}

#[derive(Clone, Debug)]
pub struct FdInfo {
    pub path: String,
    pub written: u64,
}

#[derive(Clone, Debug, Default)]
pub struct OutPlan {
    pub buf: Vec<u8>,
    pub short: u32,
    pub eintr: u32,
    /// after this many bytes, fail with errno
    pub fail_at: Option<(usize, i32)>,
    pub failed: u32,
}

pub struct Fs {
    pub scratch: String,
    pub plan: FsPlan,
    pub log: Vec<FsOp>,
    pub fds: BTreeMap<i32, FdInfo>,
    pub out: Option<OutPlan>,
    pub escapes: Vec<String>,
    /// errno of every hard fault that was injected
    pub hard: Vec<i32>,
    pub n_open_create: u32,
    pub n_open_read: u32,
    pub n_write: u32,
    pub n_mkdir: u32,
    pub n_remove: u32,
    pub n_read: u32,
    /// what is written is counted and thrown away
    pub blackhole: Option<u64>,
    failing: Option<i32>,
    eintr_run: u32,
    burst: u32,
}

impl Fs {
    pub fn new(scratch: &str) -> Fs {
        Fs {
            scratch: scratch.to_string(),
            plan: FsPlan::default(),
            log: Vec::new(),
            fds: BTreeMap::new(),
            out: None,
            escapes: Vec::new(),
            hard: Vec::new(),
            n_open_create: 0,
            n_open_read: 0,
            n_write: 0,
            n_mkdir: 0,
            n_remove: 0,
            n_read: 0,
            blackhole: None,
            failing: None,
            eintr_run: 0,
            burst: 0,
        }
    }
    pub fn inside(&self, p: &str) -> bool {
        p.starts_with(&self.scratch)
            && p.as_bytes().get(self.scratch.len()).map_or(true, |&c| c == b'/')
            && !p.split('/').any(|c| c == "..")
    }
    /// the disk is repaired and no further faults occur
    pub fn heal(&mut self) {
        self.plan = FsPlan::default();
        self.failing = None;
        self.burst = 0;
    }
    pub fn creates(&self) -> Vec<String> {
        self.log
            .iter()
            .filter_map(|o| match o {
                FsOp::Open(p, f, r) if f & libc::O_CREAT != 0 && *r >= 0 => Some(p.clone()),
                _ => None,
            })
            .collect()
    }
}

impl crate::core::St {
    fn next_burst(&mut self) {
        if self.fs.burst > 0 {
            self.fs.burst -= 1;
        } else if self.draw(80) == 79 {
            self.fs.burst = [8, 12, 20, 70, 140][self.draw(5) as usize];
        }
    }
}

// ---- raw system calls -------------------------------------------------------------------------

#[inline(always)]
unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn raw_write(fd: i32, b: &[u8]) {
    unsafe {
        raw6(libc::SYS_write, fd as c_long, b.as_ptr() as c_long, b.len() as c_long, 0, 0, 0);
    }
}
unsafe fn cpath<'a>(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn sim() -> bool {
    armed() && have_ctx()
}
/// a stable number for a path: generated names and the scratch root are not part of the event hash
fn plen(p: &str) -> u64 {
    with(|s| (p.len() - s.fs.scratch.len().min(p.len())) as u64)
}

// ---- files ------------------------------------------------------------------------------------

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !sim() {
        return ret(raw6(libc::SYS_openat, dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int;
    }
    crate::sched::yield_in_syscall("open");
    let p = cpath(path);
    let create = flags & libc::O_CREAT != 0;
    let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let verdict = with(|s| {
        let inside = s.fs.inside(&p) || (dir != libc::AT_FDCWD && !p.starts_with('/') && !p.contains(".."));
        if (create || wr) && !inside {
            s.fs.escapes.push(format!("open {} flags {:#x}", p, flags));
            s.fs.log.push(FsOp::Open(p.clone(), flags, -libc::EACCES));
            return Some(libc::EACCES);
        }
        if !inside {
            return None;
        }
        let f = if create {
            s.fs.n_open_create += 1;
            let n = s.fs.n_open_create;
            s.fs.plan.open_create.iter().find(|x| x.0 == n).map(|x| x.1)
        } else if flags & libc::O_DIRECTORY == 0 {
            s.fs.n_open_read += 1;
            let n = s.fs.n_open_read;
            s.fs.plan.open_read.iter().find(|x| x.0 == n).map(|x| x.1)
        } else {
            None
        };
        if let Some(e) = f {
            s.fault(errname("open", e));
            s.fs.hard.push(e);
            s.fs.log.push(FsOp::Open(p.clone(), flags, -e));
        }
        f
    });
    if let Some(e) = verdict {
        set_errno(e);
        return -1;
    }
    let r = raw6(libc::SYS_openat, dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0);
    with(|s| {
        if s.fs.inside(&p) {
            let l = (p.len() - s.fs.scratch.len()) as u64;
            s.ev("open", l, if r < 0 { r as u64 } else { 0 });
            if r >= 0 && flags & libc::O_DIRECTORY == 0 {
                s.fs.fds.insert(r as i32, FdInfo { path: p.clone(), written: 0 });
            }
            s.fs.log.push(FsOp::Open(p, flags, r as i32));
        }
    });
    ret(r) as c_int
}

pub fn errname(op: &'static str, e: i32) -> &'static str {
    match (op, e) {
        ("open", libc::EMFILE) => "open:EMFILE",
        ("open", libc::EACCES) => "open:EACCES",
        ("open", libc::ENOSPC) => "open:ENOSPC",
        ("open", libc::EIO) => "open:EIO",
        ("open", libc::ENOENT) => "open:ENOENT",
        ("open", libc::EDQUOT) => "open:EDQUOT",
        ("open", libc::EROFS) => "open:EROFS",
        ("open", _) => "open:other",
        ("write", libc::ENOSPC) => "write:ENOSPC",
        ("write", libc::EIO) => "write:EIO",
        ("write", libc::EDQUOT) => "write:EDQUOT",
        ("write", libc::EFBIG) => "write:EFBIG",
        ("write", libc::EAGAIN) => "write:EAGAIN",
        ("write", _) => "write:other",
        ("mkdir", libc::ENOSPC) => "mkdir:ENOSPC",
        ("mkdir", libc::EACCES) => "mkdir:EACCES",
        ("mkdir", _) => "mkdir:other",
        ("read", libc::EIO) => "file-read:EIO",
        ("read", _) => "file-read:other",
        ("remove", libc::EIO) => "remove:EIO",
        ("remove", libc::EACCES) => "remove:EACCES",
        ("remove", libc::EBUSY) => "remove:EBUSY",
        ("remove", _) => "remove:other",
        _ => "fault:other",
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags | libc::O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim() {
        with(|s| {
            s.fs.fds.remove(&fd);
        });
    }
    ret(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}

enum Act {
    Pass(usize),
    Fail(i32),
    Done(usize),
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !sim() {
        return ret(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t;
    }
    let tracked = with(|s| (fd == 1 && s.fs.out.is_some()) || s.fs.fds.contains_key(&fd));
    if !tracked {
        return ret(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t;
    }
    crate::sched::yield_in_syscall("write");
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    let act = with(|s| {
        if fd == 1 {
            let mut out = s.fs.out.take().unwrap();
            let a = (|| {
                if let Some((at, e)) = out.fail_at {
                    if out.buf.len() >= at && !data.is_empty() {
                        out.failed += 1;
                        s.fault("stdout:error");
                        return Act::Fail(e);
                    }
                }
                if out.eintr > 0 && (s.fs.burst > 0 || s.fs.eintr_run < 3 && s.draw(out.eintr) == out.eintr - 1) {
                    s.fs.eintr_run += 1;
                    s.next_burst();
                    s.fault("stdout:EINTR");
                    return Act::Fail(libc::EINTR);
                }
                s.fs.eintr_run = 0;
                let mut k = n;
                if let Some((at, _)) = out.fail_at {
                    k = k.min(at - out.buf.len());
                }
                if out.short > 0 && k > 1 && s.draw(out.short) == out.short - 1 {
                    k = 1 + s.draw((k - 1) as u32) as usize;
                    s.fault("stdout:short");
                }
                out.buf.extend_from_slice(&data[..k]);
                s.ev("stdout", k as u64, n as u64);
                Act::Done(k)
            })();
            s.fs.out = Some(out);
            return a;
        }
        if let Some(b) = s.fs.blackhole.as_mut() {
            *b += n as u64;
            return Act::Done(n);
        }
        s.fs.n_write += 1;
        let nw = s.fs.n_write;
        if let Some(e) = s.fs.failing {
            s.fault(errname("write", e));
            s.fs.hard.push(e);
            return Act::Fail(e);
        }
        if let Some(f) = s.fs.plan.write.iter().find(|x| x.0 == nw).map(|x| x.1) {
            match f {
                WFault::Err(e) => {
                    s.fault(errname("write", e));
                    s.fs.hard.push(e);
                    if s.fs.plan.write_sticky {
                        s.fs.failing = Some(e);
                    }
                    return Act::Fail(e);
                }
                WFault::Zero => {
                    s.fault("write:zero");
                    s.fs.hard.push(0);
                    return Act::Done(0);
                }
            }
        }
        if s.fs.plan.eintr > 0 && (s.fs.burst > 0 || s.fs.eintr_run < 4 && {
            let e = s.fs.plan.eintr;
            s.draw(e) == e - 1
        }) {
            s.fs.eintr_run += 1;
            s.next_burst();
            s.fault("write:EINTR");
            return Act::Fail(libc::EINTR);
        }
        s.fs.eintr_run = 0;
        let mut k = n;
        if s.fs.plan.short > 0 && k > 1 && {
            let e = s.fs.plan.short;
            s.draw(e) == e - 1
        } {
            k = 1 + s.draw((k - 1) as u32) as usize;
            s.fault("write:short");
        }
        if let Some(sp) = s.fs.plan.space {
            if (k as u64) > sp {
                if sp == 0 {
                    s.fault("write:ENOSPC");
                    s.fs.hard.push(libc::ENOSPC);
                    return Act::Fail(libc::ENOSPC);
                }
                k = sp as usize;
            }
            s.fs.plan.space = Some(sp - k as u64);
        }
        Act::Pass(k)
    });
    match act {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        Act::Done(k) => k as ssize_t,
        Act::Pass(k) => {
            let r = raw6(libc::SYS_write, fd as c_long, buf as c_long, k as c_long, 0, 0, 0);
            with(|s| {
                if r > 0 {
                    if let Some(i) = s.fs.fds.get_mut(&fd) {
                        i.written += r as u64;
                    }
                }
                s.ev("write", n as u64, r as u64);
            });
            ret(r) as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !sim() || !with(|s| s.fs.fds.contains_key(&fd)) {
        return ret(raw6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t;
    }
    crate::sched::yield_in_syscall("read");
    let act = with(|s| {
        s.fs.n_read += 1;
        let nr = s.fs.n_read;
        if let Some(e) = s.fs.plan.read.iter().find(|x| x.0 == nr).map(|x| x.1) {
            s.fault(errname("read", e));
            s.fs.hard.push(e);
            return Act::Fail(e);
        }
        let (pe, ps) = (s.fs.plan.read_eintr, s.fs.plan.read_short);
        if pe > 0 && (s.fs.burst > 0 || s.fs.eintr_run < 4 && s.draw(pe) == pe - 1) {
            s.fs.eintr_run += 1;
            s.next_burst();
            s.fault("file-read:EINTR");
            return Act::Fail(libc::EINTR);
        }
        s.fs.eintr_run = 0;
        let mut k = n;
        if ps > 0 && k > 1 && s.draw(ps) == ps - 1 {
            k = 1 + s.draw((k - 1).min(4096) as u32) as usize;
            s.fault("file-read:short");
        }
        Act::Pass(k)
    });
    match act {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        Act::Done(k) => k as ssize_t,
        Act::Pass(k) => {
            let r = raw6(libc::SYS_read, fd as c_long, buf as c_long, k as c_long, 0, 0, 0);
            with(|s| s.ev("fread", 0, r as u64));
            ret(r) as ssize_t
        }
    }
}

unsafe fn first(iov: *const libc::iovec, n: c_int) -> libc::iovec {
    let v = std::slice::from_raw_parts(iov, n.max(0) as usize);
    *v.iter().find(|v| v.iov_len > 0).unwrap_or(&libc::iovec { iov_base: std::ptr::null_mut(), iov_len: 0 })
}

/// vectored calls are served by their first buffer in a simulated thread (a legal short transfer)
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim() && with(|s| (fd == 1 && s.fs.out.is_some()) || s.fs.fds.contains_key(&fd)) {
        let v = first(iov, n);
        let p: *const c_void = if v.iov_len == 0 { 1 as *const c_void } else { v.iov_base };
        return write(fd, p, v.iov_len);
    }
    ret(raw6(libc::SYS_writev, fd as c_long, iov as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim() && with(|s| s.fs.fds.contains_key(&fd)) {
        let v = first(iov, n);
        return read(fd, v.iov_base, v.iov_len);
    }
    ret(raw6(libc::SYS_readv, fd as c_long, iov as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
/// in-kernel copies would go past the fault plan; without them std falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, fl: c_uint) -> ssize_t {
    if sim() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw6(libc::SYS_copy_file_range, a as c_long, ao as c_long, b as c_long, bo as c_long, n as c_long, fl as c_long)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if sim() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw6(libc::SYS_sendfile, a as c_long, b as c_long, o as c_long, n as c_long, 0, 0)) as ssize_t
}

fn at_path(dir: c_int, p: String) -> String {
    if p.starts_with('/') || dir == libc::AT_FDCWD {
        return p;
    }
    let l = crate::core::unarmed(|| std::fs::read_link(format!("/proc/self/fd/{}", dir)));
    match l {
        Ok(l) => format!("{}/{}", l.display(), p),
        Err(_) => p,
    }
}

unsafe fn guard(op: &str, p: &str) -> bool {
    let ok = with(|s| {
        let ok = s.fs.inside(p);
        if !ok {
            s.fs.escapes.push(format!("{} {}", op, p));
        }
        ok
    });
    if !ok {
        set_errno(libc::EACCES);
    }
    ok
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if sim() {
        crate::sched::yield_in_syscall("mkdir");
        let p = cpath(path);
        // making an existing ancestor is harmless (EEXIST); anything else outside is an escape
        let exists = {
            let mut st: libc::stat = std::mem::zeroed();
            raw6(libc::SYS_stat, path as c_long, &mut st as *mut _ as c_long, 0, 0, 0, 0) == 0
        };
        if exists && !with(|s| s.fs.inside(&p)) {
            set_errno(libc::EEXIST);
            return -1;
        }
        if !guard("mkdir", &p) {
            return -1;
        }
        let f = with(|s| {
            if !exists {
                s.fs.n_mkdir += 1;
            }
            let n = s.fs.n_mkdir;
            // making a directory which exists is EEXIST whatever the state of the disk
            let f = s.fs.plan.mkdir.iter().find(|x| x.0 == n && !exists).map(|x| x.1);
            if let Some(e) = f {
                s.fault(errname("mkdir", e));
                s.fs.hard.push(e);
            }
            f
        });
        if let Some(e) = f {
            set_errno(e);
            return -1;
        }
        let r = raw6(libc::SYS_mkdir, path as c_long, mode as c_long, 0, 0, 0, 0);
        let l = plen(&p);
        with(|s| {
            s.ev("mkdir", l, r as u64);
            s.fs.log.push(FsOp::Mkdir(p, r as i32));
        });
        return ret(r) as c_int;
    }
    ret(raw6(libc::SYS_mkdir, path as c_long, mode as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if sim() {
        let p = at_path(dir, cpath(path));
        if !guard("unlink", &p) {
            return -1;
        }
        let f = with(|s| {
            s.fs.n_remove += 1;
            let n = s.fs.n_remove;
            let f = s.fs.plan.remove.iter().find(|x| x.0 == n).map(|x| x.1);
            if let Some(e) = f {
                s.fault(errname("remove", e));
                s.fs.hard.push(e);
            }
            f
        });
        if let Some(e) = f {
            set_errno(e);
            return -1;
        }
        let r = raw6(libc::SYS_unlinkat, dir as c_long, path as c_long, flags as c_long, 0, 0, 0);
        let l = plen(&p);
        with(|s| {
            s.ev("unlink", l, r as u64);
            s.fs.log.push(FsOp::Unlink(p, r as i32));
        });
        return ret(r) as c_int;
    }
    ret(raw6(libc::SYS_unlinkat, dir as c_long, path as c_long, flags as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let (pa, pb) = (cpath(a), cpath(b));
        if !guard("rename", &pa) || !guard("rename", &pb) {
            return -1;
        }
        let r = raw6(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0);
        with(|s| s.fs.log.push(FsOp::Rename(pa, pb, r as i32)));
        return ret(r) as c_int;
    }
    ret(raw6(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if sim() {
        with(|s| s.ev("ftruncate", len as u64, 0));
    }
    ret(raw6(libc::SYS_ftruncate, fd as c_long, len as c_long, 0, 0, 0, 0)) as c_int
}

// ---- randomness and clocks --------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if sim() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        with(|s| s.entropy_bytes(out));
        return n as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long;
    }
    if n == libc::SYS_getpid {
        return getpid() as c_long;
    }
    ret(raw6(n, a, b, c, d, e, f))
}

/// a process number is no secret: in a simulated thread it is always the same
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if sim() {
        return 4242;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_MONOTONIC) && sim() {
        let v = with(|s| {
            s.vtime += 1000;
            s.vtime
        });
        (*ts).tv_sec = 1_700_000_000 + (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as _;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}
