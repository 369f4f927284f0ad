//! Run context: choice tape, event log, fault and probe counters, virtual time.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

/// Payload used to unwind a task that the scheduler aborts (not a violation by itself).
pub struct Abort;

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as u32
    }
}

pub struct St {
    rng: Rng,
    tape_in: Option<Vec<u32>>,
    pub tape: Vec<u32>,
    pos: usize,
    pub hash: u64,
    pub events: u64,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub vtime: u64,
    pub nontrivial: bool,
    pub violation: Option<Violation>,
    pub fs: crate::sys::Fs,
    pub entropy: Vec<Rng>,
    pub entropy_seed: u64,
    pub entropy_collide: bool,
    pub tape_file: Option<i32>,
    pub sample: Option<String>,
    /// this is the one run of a check that takes the rare and expensive path, if its property has one
    pub special: bool,
    pub slow: bool,
}

pub struct Ctx {
    m: Mutex<St>,
}

thread_local! {
    static CUR: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
    static TASK: Cell<usize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

impl Ctx {
    pub fn new(seed: u64, tape_in: Option<Vec<u32>>, verbose: bool, scratch: &str) -> Arc<Ctx> {
        Arc::new(Ctx {
            m: Mutex::new(St {
                rng: Rng::new(seed),
                tape_in,
                tape: Vec::with_capacity(256),
                pos: 0,
                hash: 0xcbf29ce484222325,
                events: 0,
                verbose,
                trace: Vec::new(),
                faults: BTreeMap::new(),
                probes: BTreeMap::new(),
                vtime: 0,
                nontrivial: false,
                violation: None,
                fs: crate::sys::Fs::new(scratch),
                entropy: Vec::new(),
                entropy_seed: 0,
                entropy_collide: false,
                tape_file: None,
                sample: None,
                special: false,
                slow: false,
            }),
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, St> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
}

/// Enter the context on this thread; system calls of the thread are simulated until the guard drops.
pub struct Enter(());
pub fn enter(ctx: &Arc<Ctx>, task: usize) -> Enter {
    CUR.with(|c| c.set(Arc::as_ptr(ctx)));
    TASK.with(|t| t.set(task));
    ARMED.with(|a| a.set(true));
    Enter(())
}
impl Drop for Enter {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(false));
        CUR.with(|c| c.set(std::ptr::null()));
    }
}

pub fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

/// Run harness code with the system-call layer passing through (its own file accesses are not events).
pub fn unarmed<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _g = G(ARMED.with(|a| a.replace(false)));
    f()
}

pub fn task() -> usize {
    TASK.with(|t| t.get())
}

pub fn have_ctx() -> bool {
    CUR.with(|c| !c.get().is_null())
}

pub fn with<T>(f: impl FnOnce(&mut St) -> T) -> T {
    let p = CUR.with(|c| c.get());
    assert!(!p.is_null(), "no simulation context on this thread");
    let ctx = unsafe { &*p };
    let mut g = ctx.lock();
    f(&mut g)
}

impl St {
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &self.tape_in {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
            None => self.rng.below(n),
        };
        self.put(v)
    }
    fn has_tape(&self) -> bool {
        self.tape_in.is_some()
    }
    fn put(&mut self, v: u32) -> u32 {
        self.pos += 1;
        self.tape.push(v);
        if let Some(fd) = self.tape_file {
            crate::sys::raw_write(fd, &v.to_le_bytes());
        }
        v
    }
    pub fn mix(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3);
        self.hash ^= self.hash >> 29;
    }
    pub fn ev(&mut self, code: &'static str, a: u64, b: u64) {
        self.events += 1;
        let mut h = 0u64;
        for c in code.bytes() {
            h = h.wrapping_mul(31).wrapping_add(c as u64);
        }
        self.mix(h);
        self.mix(a);
        self.mix(b.wrapping_add(task() as u64) << 1);
        if self.verbose && self.trace.len() < 20000 {
            let t = task();
            self.trace.push(format!("t{} {} {} {}", t, code, a as i64, b as i64));
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.nontrivial = true;
        self.ev(kind, 1, 0);
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn entropy_bytes(&mut self, out: &mut [u8]) {
        let t = task();
        while self.entropy.len() <= t {
            let i = self.entropy.len() as u64;
            let s = if self.entropy_collide { self.entropy_seed } else { self.entropy_seed ^ (i << 40) };
            self.entropy.push(Rng::new(s ^ 0x5eed));
        }
        for ch in out.chunks_mut(8) {
            let v = self.entropy[t].next().to_le_bytes();
            let l = ch.len();
            ch.copy_from_slice(&v[..l]);
        }
    }
}

pub fn draw(n: u32) -> u32 {
    with(|s| s.draw(n))
}
/// true with probability num/den; the value 0 on the tape means false
pub fn chance(num: u32, den: u32) -> bool {
    draw(den) >= den - num
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize].clone()
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + draw((hi - lo + 1) as u32) as usize
}
pub fn ev(code: &'static str, a: u64, b: u64) {
    with(|s| s.ev(code, a, b))
}
pub fn fault(kind: &'static str) {
    with(|s| s.fault(kind))
}
pub fn probe(name: &'static str) {
    with(|s| s.probe(name))
}
pub fn nontrivial() {
    with(|s| s.nontrivial = true)
}
/// Whether to take the rare and expensive path; recorded on the tape like any choice.
pub fn special() -> bool {
    with(|s| {
        let on = if s.has_tape() { s.draw(2) == 1 } else { s.put(s.special as u32) == 1 };
        s.slow |= on;
        on
    })
}
/// Free-text line of the trace, only kept when replaying.
pub fn note(f: impl FnOnce() -> String) {
    let v = with(|s| s.verbose);
    if v {
        let t = f();
        with(|s| {
            if s.trace.len() < 20000 {
                s.trace.push(t)
            }
        });
    }
}
pub fn sample(f: impl FnOnce() -> String) {
    let need = with(|s| s.sample.is_none());
    if need {
        let t = f();
        with(|s| s.sample = Some(t));
    }
}

/// Report a violation and unwind the run.
pub fn violate(class: &str, msg: String) -> ! {
    std::panic::panic_any(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! vio {
    ($class:expr, $($arg:tt)*) => { $crate::core::violate($class, format!($($arg)*)) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !$cond { $crate::core::violate($class, format!($($arg)*)) } };
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    let n = b.len().min(160);
    for &c in &b[..n] {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > n {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// First difference of two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let lo = i.saturating_sub(20);
    format!(
        "lengths {} vs {} expected, first difference at {}: got ..{} expected ..{}",
        got.len(),
        want.len(),
        i,
        show(&got[lo.min(got.len())..(i + 20).min(got.len())]),
        show(&want[lo.min(want.len())..(i + 20).min(want.len())])
    )
}

impl Ctx {
    pub fn is_slow(&self) -> bool {
        for _ in 0..1000 {
            if let Ok(g) = self.m.try_lock() {
                return g.slow;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        false
    }
    pub fn try_tape(&self) -> Vec<u32> {
        for _ in 0..1000 {
            if let Ok(g) = self.m.try_lock() {
                return g.tape.clone();
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        Vec::new()
    }
}
