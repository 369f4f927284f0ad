//! Executes single simulated runs.
use crate::core::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub f: fn(&Arc<Ctx>),
    /// the run uses files
    pub fs: bool,
    /// runs of a quick check
    pub quick: u64,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub rule: &'static str,
}

pub struct Res {
    pub hash: u64,
    pub events: u64,
    pub vtime: u64,
    pub nontrivial: bool,
    pub tape: Vec<u32>,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sample: Option<String>,
    pub vio: Option<Violation>,
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static LASTG: Mutex<String> = Mutex::new(String::new());

/// Formats every message and throws it away.
struct Null;
impl log::Log for Null {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Nowhere;
        impl Write for Nowhere {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = write!(Nowhere, "{}", r.args());
    }
    fn flush(&self) {}
}

pub fn install_hook() {
    log::set_logger(&Null).expect("logger");
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Violation>() || i.payload().is::<Abort>() {
            return;
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{}: {}", l, m);
        let _ = LAST.try_with(|x| *x.borrow_mut() = text.clone());
        if let Ok(mut g) = LASTG.lock() {
            *g = text;
        }
    }));
}
/// location and message of the last panic
pub fn last_panic() -> String {
    let l = LAST.with(|x| x.borrow().clone());
    if l.is_empty() {
        LASTG.lock().map(|g| g.clone()).unwrap_or_default()
    } else {
        l
    }
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x243F6A8885A308D3;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= idx.wrapping_mul(0xD1B54A32D192ED03);
    splitmix(&mut h)
}

fn fresh_scratch(dir: &str) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(format!("{}/up/tmp", dir)).expect("scratch");
}

/// Body of a run, on the current thread.
fn body(p: &Prop, ctx: &Arc<Ctx>, scratch: &str) {
    if p.fs {
        fresh_scratch(scratch);
    }
    let r = {
        let _e = enter(ctx, 0);
        let seed = draw(1 << 30) as u64;
        with(|s| s.entropy_seed = seed);
        // whether the application logs must not matter
        let log = draw(40) == 39;
        log::set_max_level(if log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        if log {
            probe("logging");
        }
        catch_unwind(AssertUnwindSafe(|| {
            (p.f)(ctx);
            // results hold paths, not open files
            let open = with(|s| s.fs.fds.values().map(|f| f.path.clone()).next());
            if let Some(f) = open {
                violate(&format!("{}/descriptor", p.id), format!("{:?} is still open although everything has been dropped", f));
            }
        }))
    };
    if let Err(e) = r {
        let v = match e.downcast::<Violation>() {
            Ok(v) => *v,
            Err(e) => {
                if e.is::<Abort>() {
                    Violation { class: "abort".into(), msg: "run aborted".into() }
                } else {
                    let l = last_panic();
                    let loc = l.split(": ").next().unwrap_or("?").to_string();
                    let short = loc.rsplit("/src/").next().unwrap_or(&loc).to_string();
                    Violation { class: format!("panic@{}", short), msg: format!("panic at {}", l) }
                }
            }
        };
        ctx.lock().violation = Some(v);
    }
}

pub enum Outcome {
    Done(Res),
    Hang(Vec<u32>),
}

fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

/// Execute one run on a fresh thread. `hang` is the CPU time after which it counts as spinning.
pub fn run_one(p: &'static Prop, seed: u64, tape: Option<Vec<u32>>, verbose: bool, scratch: &str, tape_fd: Option<i32>, hang: f64, special: bool) -> Outcome {
    let ctx = Ctx::new(seed, tape, verbose, scratch);
    ctx.lock().special = special;
    ctx.lock().tape_file = tape_fd;
    let c2 = ctx.clone();
    let sc = scratch.to_string();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            body(p, &c2, &sc);
            let _ = tx.send(());
        })
        .expect("spawn");
    let (t0, c0) = (Instant::now(), cpu());
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(()) | Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let w = t0.elapsed().as_secs_f64();
                let slow = if (cpu() - c0 > hang || w > 150.0) && ctx.is_slow() { 10.0 } else { 1.0 };
                if cpu() - c0 > hang * slow && w > hang * slow || w > 150.0 * slow {
                    // the thread may hold the context's lock
                    let t = unsafe_tape(&ctx);
                    return Outcome::Hang(t);
                }
            }
        }
    }
    let _ = h.join();
    let mut s = ctx.lock();
    Outcome::Done(Res {
        hash: s.hash,
        events: s.events,
        vtime: s.vtime,
        nontrivial: s.nontrivial,
        tape: std::mem::take(&mut s.tape),
        trace: std::mem::take(&mut s.trace),
        faults: std::mem::take(&mut s.faults),
        probes: std::mem::take(&mut s.probes),
        sample: s.sample.take(),
        vio: s.violation.take(),
    })
}

fn unsafe_tape(ctx: &Arc<Ctx>) -> Vec<u32> {
    ctx.try_tape()
}
