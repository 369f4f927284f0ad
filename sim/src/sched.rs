//! Baton scheduler: tasks are threads of which exactly one runs; who runs next is drawn.
use crate::core::{self, Abort, Ctx, Violation};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Ready,
    /// wake-up time, if any
    Blocked(Option<u64>),
    Done,
}

struct SS {
    st: Vec<T>,
    timed_out: Vec<bool>,
    cur: usize,
    abort: bool,
    deadlock: bool,
    switches: u64,
    steps: u64,
}

pub struct Sched {
    m: Mutex<SS>,
    cv: Vec<Condvar>,
    max_steps: u64,
}

thread_local! {
    static SCHED: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
}

fn sched() -> Option<&'static Sched> {
    SCHED.try_with(|s| { let p = s.get(); if p.is_null() { None } else { Some(unsafe { &*p }) } }).unwrap_or(None)
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Wake {
    Woken,
    Timeout,
    Deadlock,
}

/// Let another task run here if the schedule says so.
pub fn yield_point(_tag: &'static str) {
    point(true)
}
/// The same inside a system call, where unwinding is not possible.
pub fn yield_in_syscall(_tag: &'static str) {
    point(false)
}

fn point(may_unwind: bool) {
    let Some(s) = sched() else { return };
    if std::thread::panicking() {
        return;
    }
    let me = core::task();
    let mut g = s.m.lock().unwrap();
    g.steps += 1;
    if g.steps > s.max_steps && may_unwind {
        drop(g);
        core::violate("no-progress", format!("the simulated parties did not finish within {} steps", s.max_steps));
    }
    if g.abort {
        drop(g);
        if may_unwind {
            std::panic::panic_any(Abort);
        }
        return;
    }
    let ready: Vec<usize> = (0..g.st.len()).filter(|&i| g.st[i] == T::Ready && i != me).collect();
    if ready.is_empty() {
        return;
    }
    // 0 keeps running the current task; switches happen at about one point in three
    let k = core::draw(2 * (ready.len() as u32) + 2) as usize;
    if k < ready.len() + 2 {
        return;
    }
    let next = ready[k - ready.len() - 2];
    g.switches += 1;
    core::ev("switch", me as u64, next as u64);
    core::nontrivial();
    g.cur = next;
    s.cv[next].notify_one();
    while g.cur != me {
        g = s.cv[me].wait(g).unwrap();
    }
    if g.abort && may_unwind {
        drop(g);
        std::panic::panic_any(Abort);
    }
}

/// Block until woken or until the virtual time `at`.
pub fn block(at: Option<u64>) -> Wake {
    let Some(s) = sched() else {
        if let Some(t) = at {
            core::with(|x| x.vtime = x.vtime.max(t));
            return Wake::Timeout;
        }
        return Wake::Deadlock;
    };
    let me = core::task();
    let mut g = s.m.lock().unwrap();
    g.steps += 1;
    if g.steps > s.max_steps {
        drop(g);
        core::violate("no-progress", format!("the simulated parties did not finish within {} steps", s.max_steps));
    }
    if g.abort {
        drop(g);
        std::panic::panic_any(Abort);
    }
    g.st[me] = T::Blocked(at);
    g.timed_out[me] = false;
    dispatch(s, &mut g);
    while g.cur != me {
        g = s.cv[me].wait(g).unwrap();
    }
    if g.abort {
        drop(g);
        std::panic::panic_any(Abort);
    }
    g.st[me] = T::Ready;
    if g.deadlock {
        g.deadlock = false;
        return Wake::Deadlock;
    }
    if g.timed_out[me] {
        Wake::Timeout
    } else {
        Wake::Woken
    }
}

/// choose who runs, given that the current task cannot
fn dispatch(s: &Sched, g: &mut SS) {
    let ready: Vec<usize> = (0..g.st.len()).filter(|&i| g.st[i] == T::Ready).collect();
    let next = if !ready.is_empty() {
        ready[core::draw(ready.len() as u32) as usize]
    } else {
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in g.st.iter().enumerate() {
            if let T::Blocked(Some(at)) = *t {
                if best.map_or(true, |b| at < b.0) {
                    best = Some((at, i));
                }
            }
        }
        match best {
            Some((at, i)) => {
                core::with(|x| x.vtime = x.vtime.max(at));
                g.st[i] = T::Ready;
                g.timed_out[i] = true;
                i
            }
            None => match (0..g.st.len()).find(|&i| g.st[i] != T::Done) {
                Some(i) => {
                    core::ev("deadlock", i as u64, 0);
                    core::probe("deadlock-broken");
                    g.st[i] = T::Ready;
                    g.deadlock = true;
                    i
                }
                None => return,
            },
        }
    };
    g.switches += 1;
    core::ev("run", next as u64, 0);
    g.cur = next;
    s.cv[next].notify_one();
}

/// Make a blocked task ready.
pub fn wake(i: usize) {
    let Some(s) = sched() else { return };
    let mut g = s.m.lock().unwrap();
    if let Some(T::Blocked(_)) = g.st.get(i) {
        g.st[i] = T::Ready;
    }
}

pub struct Outcome {
    pub panics: Vec<Option<Box<dyn std::any::Any + Send>>>,
    pub switches: u64,
}

/// Run the tasks to completion under the baton. Task i has task id i+1 (0 is the caller).
pub fn run<'a>(ctx: &Arc<Ctx>, tasks: Vec<Box<dyn FnOnce() + Send + 'a>>, max_steps: u64) -> Outcome {
    let n = tasks.len();
    let mut st = vec![T::Ready; n + 1];
    st[0] = T::Blocked(None);
    let s = Sched {
        m: Mutex::new(SS { st, timed_out: vec![false; n + 1], cur: usize::MAX, abort: false, deadlock: false, switches: 0, steps: 0 }),
        cv: (0..n + 1).map(|_| Condvar::new()).collect(),
        max_steps,
    };
    let mut panics: Vec<Option<Box<dyn std::any::Any + Send>>> = Vec::new();
    let first = core::draw(n as u32) as usize + 1;
    core::unarmed(|| {
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for (i, t) in tasks.into_iter().enumerate() {
                let s = &s;
                let ctx = ctx.clone();
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(sc, move || {
                            let me = i + 1;
                            {
                                let mut g = s.m.lock().unwrap();
                                while g.cur != me {
                                    g = s.cv[me].wait(g).unwrap();
                                }
                            }
                            let _e = core::enter(&ctx, me);
                            SCHED.with(|c| c.set(s as *const Sched));
                            let aborted = s.m.lock().unwrap().abort;
                            let r = if aborted { Ok(()) } else { catch_unwind(AssertUnwindSafe(t)) };
                            SCHED.with(|c| c.set(std::ptr::null()));
                            let real = match &r {
                                Err(p) => !p.is::<Abort>(),
                                Ok(_) => false,
                            };
                            let mut g = s.m.lock().unwrap();
                            g.st[me] = T::Done;
                            if real {
                                g.abort = true;
                            }
                            if g.abort {
                                // release everybody, in order, to unwind
                                match (1..g.st.len()).find(|&j| g.st[j] != T::Done) {
                                    Some(j) => {
                                        g.cur = j;
                                        s.cv[j].notify_one();
                                    }
                                    None => {}
                                }
                            } else if (1..g.st.len()).any(|j| g.st[j] != T::Done) {
                                // task 0 (the caller) waits outside
                                g.st[0] = T::Done;
                                dispatch(s, &mut g);
                            }
                            drop(g);
                            r.err().filter(|_| real)
                        })
                        .expect("spawn"),
                );
            }
            {
                let mut g = s.m.lock().unwrap();
                g.st[0] = T::Done;
                g.cur = first;
                s.cv[first].notify_one();
            }
            for h in hs {
                panics.push(h.join().unwrap_or(None));
            }
        })
    });
    let sw = s.m.lock().unwrap().switches;
    core::ev("joined", sw, 0);
    Outcome { panics, switches: sw }
}

/// Run tasks and re-raise the first panic (violation) of any of them.
pub fn run_all<'a>(ctx: &Arc<Ctx>, tasks: Vec<Box<dyn FnOnce() + Send + 'a>>, max_steps: u64) -> u64 {
    let o = run(ctx, tasks, max_steps);
    let mut first: Option<Box<dyn std::any::Any + Send>> = None;
    for p in o.panics.into_iter().flatten() {
        let better = p.is::<Violation>() && first.as_ref().map_or(true, |f| !f.is::<Violation>());
        if first.is_none() || better {
            first = Some(p);
        }
    }
    if let Some(p) = first {
        std::panic::resume_unwind(p);
    }
    o.switches
}
