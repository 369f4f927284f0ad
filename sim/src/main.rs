mod alloc;
#[macro_use]
mod core;
mod gen;
mod io;
mod net;
mod props;
mod runner;
mod sched;
mod sys;
mod tiny;

use runner::{run_one, run_seed, Outcome, Prop, Res};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read as _, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const HANG: f64 = 12.0;

fn find(id: &str) -> &'static Prop {
    match props::all().iter().find(|p| p.id.eq_ignore_ascii_case(id)) {
        Some(p) => p,
        None => {
            eprintln!("mpsim: unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn die(m: &str) -> ! {
    eprintln!("mpsim: {}", m);
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    runner::install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("work") => work(&a),
        Some("replay") => replay(&a),
        Some("boundaries") => props::boundaries(a[2].parse().unwrap()),
        Some("minimise") => minimise(&a),
        Some("history") => {
            if let Some((c, m)) = history(&a) {
                println!("{}: {}", c, m);
                std::process::exit(1);
            }
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.quick, p.title)
            }
        }
        _ => die("usage: mpsim check ID | replay FILE | list"),
    }
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("mpsim.{:08}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    die("no scratch directory")
}

fn set_tmp(scratch: &str) {
    std::env::set_var("TMPDIR", format!("{}/up/tmp", scratch));
}

// ---- worker -----------------------------------------------------------------------------------

struct Cur(*mut u64);
impl Cur {
    fn open(p: &str) -> Cur {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("cur");
        f.set_len(8).unwrap();
        use std::os::fd::AsRawFd;
        unsafe {
            let m = libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(m != libc::MAP_FAILED);
            Cur(m as *mut u64)
        }
    }
    fn set(&self, v: u64) {
        unsafe { std::ptr::write_volatile(self.0, v) }
    }
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        // a worker never outlives the check
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn worker_scratch(base: &str, k: u64) -> String {
    format!("{}/w{:02}", base, k)
}

fn write_vio(path: &str, idx: u64, class: &str, msg: &str, tape: &[u32]) {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let s = format!("{}\n{}\n{}\n{}\n", idx, class.replace('\n', " "), msg.replace('\n', " "), t.join(" "));
    std::fs::write(format!("{}.part", path), s).expect("vio");
    std::fs::rename(format!("{}.part", path), path).expect("vio");
}

/// work ID seed base k n runs deadline_s
fn work(a: &[String]) {
    limit_memory();
    let p = find(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let base = &a[4];
    let (k, n, runs): (u64, u64, u64) = (a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
    let deadline = Instant::now() + Duration::from_secs(a[8].parse().unwrap());
    let scratch = worker_scratch(base, k);
    std::fs::create_dir_all(&scratch).unwrap();
    set_tmp(&scratch);
    let cur = Cur::open(&format!("{}/c{:02}", base, k));
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut done, mut events, mut vtime, mut nontriv, mut rechecked, mut mismatch) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut i = k;
    while i < runs {
        if done % 16 == 0 && Instant::now() > deadline {
            break;
        }
        cur.set(i + 1);
        let vio_path = format!("{}/v{:02}", base, k);
        match run_one(p, run_seed(seed, p.id, i), None, false, &scratch, None, HANG, i < 8) {
            Outcome::Hang(t) => {
                write_vio(&vio_path, i, "hang", "a library call did not return (it spins without reading its source)", &t);
                std::process::exit(3);
            }
            Outcome::Done(r) => {
                done += 1;
                events += r.events;
                vtime += r.vtime;
                if r.nontrivial {
                    nontriv += 1;
                    hashes.insert(r.hash);
                    if samples.len() < 2 {
                        if let Some(s) = &r.sample {
                            samples.push(format!("run {}: {}", i, s));
                        }
                    }
                }
                for (k, v) in &r.faults {
                    *faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &r.probes {
                    *probes.entry(k).or_insert(0) += v;
                }
                if let Some(v) = &r.vio {
                    write_vio(&vio_path, i, &v.class, &v.msg, &r.tape);
                    std::process::exit(3);
                }
                if (i / n) % 64 == 5 {
                    if let Outcome::Done(r2) = run_one(p, 0, Some(r.tape.clone()), false, &scratch, None, HANG, false) {
                        rechecked += 1;
                        if r2.hash != r.hash {
                            mismatch += 1;
                        }
                    }
                }
            }
        }
        i += n;
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut o = format!("done {}\nevents {}\nvtime {}\nnontriv {}\nrechecked {}\nmismatch {}\n", done, events, vtime, nontriv, rechecked, mismatch);
    for (k, v) in faults {
        o.push_str(&format!("F {} {}\n", k, v));
    }
    for (k, v) in probes {
        o.push_str(&format!("P {} {}\n", k, v));
    }
    for s in samples {
        o.push_str(&format!("S {}\n", s.replace('\n', " ")));
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/h{:02}", base, k), hb).unwrap();
    std::fs::write(format!("{}/o{:02}", base, k), o).unwrap();
}

// ---- check ------------------------------------------------------------------------------------

struct Vio {
    idx: u64,
    class: String,
    msg: String,
    tape: Vec<u32>,
}

fn read_vio(p: &Path) -> Option<Vio> {
    let s = std::fs::read_to_string(p).ok()?;
    let mut l = s.lines();
    Some(Vio {
        idx: l.next()?.parse().ok()?,
        class: l.next()?.to_string(),
        msg: l.next()?.to_string(),
        tape: l.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect(),
    })
}

fn verif_dir() -> PathBuf {
    std::env::var("MPSIM_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."))
}

fn check(id: &str) {
    let p = find(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("MPSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let runs = ((p.quick * if thorough { 25 } else { 1 }) as f64 * scale) as u64;
    let cap = if thorough { 720 } else { 150 };
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16) as u64;
    let base = scratch_base();
    let bs = base.to_str().unwrap().to_string();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Option<Child>)> = (0..n)
        .map(|k| {
            let c = Command::new(&exe)
                .args(["work", p.id, &seed.to_string(), &bs, &k.to_string(), &n.to_string(), &runs.to_string(), &cap.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| die(&format!("cannot start a worker: {}", e)));
            (k, Some(c))
        })
        .collect();
    let mut vio: Option<Vio> = None;
    let mut failed = false;
    let mut died: Option<Vio> = None;
    while kids.iter().any(|k| k.1.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for (k, c) in kids.iter_mut() {
            let Some(ch) = c else { continue };
            if let Ok(Some(st)) = ch.try_wait() {
                *c = None;
                if st.success() {
                    continue;
                }
                let vp = base.join(format!("v{:02}", k));
                if let Some(v) = read_vio(&vp) {
                    if vio.as_ref().map_or(true, |o| v.idx < o.idx) {
                        vio = Some(v);
                    }
                } else {
                    // the worker died: find out in which run, and confirm
                    let idx = std::fs::read(base.join(format!("c{:02}", k))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0);
                    if idx == 0 {
                        eprintln!("mpsim: worker {} failed before its first run ({})", k, st);
                        failed = true;
                        continue;
                    }
                    let tape = crash_tape(&exe, p, seed, idx - 1, &bs);
                    match tape {
                        Some(t) => vio = Some(Vio { idx: idx - 1, class: "crash".into(), msg: format!("the process died in this run ({})", st), tape: t }),
                        None if died.is_none() => died = Some(Vio { idx: idx - 1, class: "crash".into(), msg: format!("the process died in this run ({})", st), tape: Vec::new() }),
                        None => {
                            eprintln!("mpsim: worker {} died ({}) in run {} but the run does not reproduce it", k, st, idx - 1);
                            failed = true;
                        }
                    }
                }
            }
        }
        if vio.is_some() {
            for (_, c) in kids.iter_mut() {
                if let Some(ch) = c {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    *c = None;
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut lines = String::new();
    if let Some(v) = vio {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-seed{}-run{}.json", p.id, seed, v.idx));
        let raw = base.join("raw");
        let _ = std::fs::remove_file(&file);
        write_vio(raw.to_str().unwrap(), v.idx, &v.class, &v.msg, &v.tape);
        let st = Command::new(&exe)
            .args(["minimise", p.id, &seed.to_string(), raw.to_str().unwrap(), file.to_str().unwrap(), &bs])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .status();
        let ok = matches!(st, Ok(s) if s.success());
        if !ok && !file.exists() && v.class != "hang" {
            // what earlier runs left behind in the process may be part of it
            history_replay(&exe, p, seed, n, &v, &file, &bs);
        }
        if !ok && !file.exists() {
            eprintln!("mpsim: run {} reported {} ({}) but its replay does not reproduce it", v.idx, v.class, v.msg);
            code = 2;
        } else {
            let m = std::fs::read_to_string(&file).ok().and_then(|s| json_str(&s, "message")).unwrap_or(v.msg);
            lines = format!("{}: {}\nVIOLATION property={} replay={}\n", v.class, m, p.id, file.display());
            code = 1;
        }
    } else if let Some(v) = died {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-seed{}-run{}.json", p.id, seed, v.idx));
        let _ = std::fs::remove_file(&file);
        history_replay(&exe, p, seed, n, &v, &file, &bs);
        if file.exists() {
            lines = format!("{}: {}\nVIOLATION property={} replay={}\n", v.class, v.msg, p.id, file.display());
            code = 1;
        } else {
            eprintln!("mpsim: a worker died in run {} but the run does not reproduce it", v.idx);
            code = 2;
        }
    } else if failed {
        code = 2;
    }
    evidence(p, &tier, seed, &base, n, runs, search_s, t0.elapsed().as_secs_f64(), code);
    let _ = std::fs::remove_dir_all(&base);
    print!("{}", lines);
    std::process::exit(code);
}

/// history ID seed k n from idx base: the runs of one worker from `from` to `idx`, in one process
fn history(a: &[String]) -> Option<(String, String)> {
    limit_memory();
    let p = find(&a[2]);
    let v: Vec<u64> = a[3..8].iter().map(|x| x.parse().unwrap()).collect();
    let (seed, k, n, from, idx) = (v[0], v[1], v[2], v[3], v[4]);
    let scratch = worker_scratch(&a[8], 96);
    std::fs::create_dir_all(&scratch).unwrap();
    set_tmp(&scratch);
    let mut i = from.max(k);
    let mut got = None;
    while i <= idx && got.is_none() {
        match run_one(p, run_seed(seed, p.id, i), None, false, &scratch, None, HANG, i < 8) {
            Outcome::Hang(_) => break,
            Outcome::Done(r) => {
                got = r.vio.map(|v| (v.class, v.msg));
                if got.is_none() && (i / n) % 64 == 5 {
                    run_one(p, 0, Some(r.tape), false, &scratch, None, HANG, false);
                }
            }
        }
        i += n;
    }
    let _ = std::fs::remove_dir_all(&scratch);
    got
}

fn history_replay(exe: &Path, p: &Prop, seed: u64, n: u64, v: &Vio, file: &Path, base: &str) {
    let k = v.idx % n;
    let t0 = Instant::now();
    let run = |from: u64| -> Option<String> {
        let o = Command::new(exe)
            .args(["history", p.id, &seed.to_string(), &k.to_string(), &n.to_string(), &from.to_string(), &v.idx.to_string(), base])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
            .ok()?;
        match o.status.code() {
            None => Some(format!("crash: the process died ({})", o.status)),
            Some(1) => String::from_utf8(o.stdout).ok().map(|s| s.trim().to_string()),
            _ => None,
        }
    };
    // the shortest history that shows it
    let mut back = 1u64;
    let (mut from, mut said) = loop {
        let from = v.idx.saturating_sub(back * n).max(k);
        if let Some(s) = run(from) {
            break (from, s);
        }
        if from == k || t0.elapsed().as_secs() > 250 {
            return;
        }
        back *= 4;
    };
    for _ in 0..12 {
        let f = from + (v.idx - from) / 2 / n * n;
        if f == from || t0.elapsed().as_secs() > 300 {
            break;
        }
        match run(f) {
            Some(s) => (from, said) = (f, s),
            None => break,
        }
    }
    let s = format!(
        "{{\n \"property\": {},\n \"verif_seed\": {},\n \"run\": {},\n \"class\": {},\n \"message\": {},\n \"history\": \"{} {} {} {} {}\",\n \"note\": \"the violation depends on what earlier runs left in the process: they are part of the replay\"\n}}\n",
        jesc(p.id), seed, v.idx, jesc(&v.class), jesc(said.strip_prefix(&format!("{}: ", v.class)).unwrap_or(&said)), seed, k, n, from, v.idx
    );
    let _ = std::fs::write(file, s);
}

/// Re-execute a run that killed its worker in a child that records the tape as it goes.
fn crash_tape(exe: &Path, p: &Prop, seed: u64, idx: u64, base: &str) -> Option<Vec<u32>> {
    let tf = format!("{}/crash.tape", base);
    let st = Command::new(exe)
        .args(["replay", "--prng", p.id, &seed.to_string(), &idx.to_string(), &tf, base])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    if st.code().is_some() {
        return None;
    }
    let b = std::fs::read(&tf).ok()?;
    Some(b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, base: &Path, n: u64, planned: u64, search_s: f64, wall: f64, code: i32) {
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut hs: std::collections::HashSet<u64> = Default::default();
    for k in 0..n {
        let o = std::fs::read_to_string(base.join(format!("o{:02}", k))).unwrap_or_default();
        for l in o.lines() {
            if let Some(r) = l.strip_prefix("S ") {
                if samples.len() < 4 {
                    samples.push(r.to_string());
                }
                continue;
            }
            let w: Vec<&str> = l.split(' ').collect();
            let (m, k, v) = match w[0] {
                "F" => (&mut faults, w[1..w.len() - 1].join(" "), w[w.len() - 1]),
                "P" => (&mut probes, w[1..w.len() - 1].join(" "), w[w.len() - 1]),
                _ => (&mut sums, w[0].to_string(), w[1]),
            };
            *m.entry(k).or_insert(0) += v.parse::<u64>().unwrap_or(0);
        }
        let b = std::fs::read(base.join(format!("h{:02}", k))).unwrap_or_default();
        for c in b.chunks_exact(8) {
            hs.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let g = |k: &str| sums.get(k).copied().unwrap_or(0);
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", jesc(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(", "));
    if samples.is_empty() {
        samples.push("no complete worker output (a violation stopped the search)".into());
    }
    let ss: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    let perh = if search_s > 0.0 { (g("done") as f64 / search_s * 3600.0) as u64 } else { 0 };
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"planned_runs\": {},\n  \"runs_per_hour\": {},\n  \"seeds\": \"every run has its own seed, derived from VERIF_SEED, the property and the run index\",\n  \"nontrivial_runs\": {},\n  \"events\": {},\n  \"simulated_seconds\": {:.6},\n  \"faults_injected\": {},\n  \"situations_reached\": {},\n  \"distinctness_measure\": \"64-bit hash of the complete event log of a run (reads, writes, system calls, faults, task switches, results)\",\n  \"determinism\": {{\"runs_reexecuted_from_their_tape\": {}, \"event_hash_mismatches\": {}}},\n  \"real_components\": {},\n  \"simulated_components\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jesc(p.id), jesc(tier), seed, g("done"), hs.len(), jesc(p.rule), list(&ss), planned, perh, g("nontriv"), g("events"), g("vtime") as f64 / 1e9,
        map(&faults), map(&probes), g("rechecked"), g("mismatch"), list(p.real), list(p.stub),
        list(&["seeded search, not exhaustive: absence of a violation covers the explored runs only", "generated names and filenames contain no double quotes or line breaks (they cannot be sent), and data never contains the full delimiter"]),
        wall, if code == 1 { 1 } else { 0 }
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), j) {
        die(&format!("cannot write evidence: {}", e));
    }
}

// ---- replay and minimisation ------------------------------------------------------------------

fn json_str(s: &str, key: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\":", key))? + key.len() + 3;
    let r = s[i..].trim_start();
    let r = r.strip_prefix('"')?;
    let mut o = String::new();
    let mut it = r.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

fn json_tape(s: &str) -> Option<Vec<u32>> {
    let i = s.find("\"tape\":")? + 7;
    let a = s[i..].find('[')? + i + 1;
    let b = s[a..].find(']')? + a;
    Some(s[a..b].split(',').filter_map(|x| x.trim().parse().ok()).collect())
}

fn replay(a: &[String]) {
    limit_memory();
    if a[2] == "--prng" {
        // replay --prng ID seed idx tapefile base
        let p = find(&a[3]);
        let (seed, idx): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
        use std::os::fd::AsRawFd;
        let f = std::fs::File::create(&a[6]).unwrap();
        let scratch = worker_scratch(&a[7], 98);
        std::fs::create_dir_all(&scratch).unwrap();
        set_tmp(&scratch);
        run_one(p, run_seed(seed, p.id, idx), None, false, &scratch, Some(f.as_raw_fd()), HANG, idx < 8);
        return;
    }
    let s = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| die(&format!("{}: {}", a[2], e)));
    let p = find(&json_str(&s, "property").unwrap_or_else(|| die("no property in the replay file")));
    if let Some(h) = json_str(&s, "history") {
        let base = scratch_base();
        let mut v = vec![String::new(), String::new(), p.id.to_string()];
        v.extend(h.split(' ').map(String::from));
        v.push(base.to_str().unwrap().to_string());
        let r = history(&v);
        let _ = std::fs::remove_dir_all(&base);
        match r {
            Some((c, m)) => {
                println!("{}: {}\nVIOLATION property={} replay={}", c, m, p.id, a[2]);
                std::process::exit(1);
            }
            None => println!("no violation"),
        }
        return;
    }
    let tape = json_tape(&s).unwrap_or_else(|| die("no tape in the replay file"));
    let quiet = a.get(3).map_or(false, |x| x == "--quiet");
    let hang: f64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(HANG);
    let own = a.get(5).is_none();
    let base = match a.get(5) {
        Some(b) => PathBuf::from(b),
        None => scratch_base(),
    };
    let scratch = worker_scratch(base.to_str().unwrap(), 97);
    std::fs::create_dir_all(&scratch).unwrap();
    set_tmp(&scratch);
    let r = run_one(p, 0, Some(tape), !quiet, &scratch, None, hang, false);
    if own {
        let _ = std::fs::remove_dir_all(&base);
    }
    match r {
        Outcome::Hang(_) => {
            println!("hang\nVIOLATION property={} replay={}", p.id, a[2]);
            std::process::exit(1);
        }
        Outcome::Done(r) => {
            if !quiet {
                for l in &r.trace {
                    println!("  {}", l);
                }
                println!("event hash {:016x}, {} events", r.hash, r.events);
            }
            match r.vio {
                Some(v) => {
                    println!("{}: {}\nVIOLATION property={} replay={}", v.class, v.msg, p.id, a[2]);
                    std::process::exit(1);
                }
                None => println!("no violation"),
            }
        }
    }
}

fn write_replay(file: &str, p: &Prop, seed: u64, v: &Vio, trace: &[String], hash: u64, orig_len: usize, tries: u64) {
    let t: Vec<String> = v.tape.iter().map(|x| x.to_string()).collect();
    let tr: Vec<String> = trace.iter().take(4000).map(|x| format!("  {}", jesc(x))).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"verif_seed\": {},\n \"run\": {},\n \"class\": {},\n \"message\": {},\n \"event_hash\": \"{:016x}\",\n \"original_tape_length\": {},\n \"minimisation_runs\": {},\n \"tape\": [{}],\n \"trace\": [\n{}\n ]\n}}\n",
        jesc(p.id), seed, v.idx, jesc(&v.class), jesc(&v.msg), hash, orig_len, tries, t.join(","), tr.join(",\n")
    );
    std::fs::write(file, s).expect("replay file");
}

/// minimise ID seed raw out base
fn minimise(a: &[String]) {
    limit_memory();
    let p = find(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let mut v = read_vio(Path::new(&a[4])).unwrap_or_else(|| die("raw"));
    let base = a[6].clone();
    let scratch = worker_scratch(&base, 99);
    std::fs::create_dir_all(&scratch).unwrap();
    set_tmp(&scratch);
    let external = v.class == "hang" || v.class == "crash";
    let exe = std::env::current_exe().unwrap();
    let class = v.class.clone();
    let orig = v.tape.len();
    let tries = std::cell::Cell::new(0u64);
    let run = |t: &[u32], verbose: bool| -> Option<(String, Vec<u32>, Res)> {
        match run_one(p, 0, Some(t.to_vec()), verbose, &scratch, None, HANG, false) {
            Outcome::Done(mut r) => match r.vio.take() {
                Some(v) if v.class == class => Some((v.msg, r.tape.clone(), r)),
                _ => None,
            },
            Outcome::Hang(_) => None,
        }
    };
    let attempt = |t: &[u32]| -> Option<(String, Vec<u32>)> {
        tries.set(tries.get() + 1);
        if external {
            let cand = format!("{}/cand", base);
            let tt: Vec<String> = t.iter().map(|x| x.to_string()).collect();
            std::fs::write(&cand, format!("{{\"property\": {}, \"tape\": [{}]}}", jesc(p.id), tt.join(","))).ok()?;
            let o = Command::new(&exe).args(["replay", &cand, "--quiet", "4", &base]).stderr(Stdio::null()).output().ok()?;
            let hang = String::from_utf8_lossy(&o.stdout).starts_with("hang");
            let ok = if class == "hang" { hang } else { o.status.code().is_none() };
            if ok {
                Some((v.msg.clone(), t.to_vec()))
            } else {
                None
            }
        } else {
            run(t, false).map(|x| (x.0, x.1))
        }
    };
    let t0 = Instant::now();
    let (limit, max) = if external { (90.0, 40) } else { (25.0, 6000) };
    let first = match attempt(&v.tape) {
        Some(f) => f,
        None => die("the violation does not reproduce"),
    };
    // a candidate may kill this process: what is known so far is on disk by then
    let save = |tape: &[u32], msg: &str| {
        let v = Vio { idx: v.idx, class: class.clone(), msg: msg.to_string(), tape: tape.to_vec() };
        write_replay(&a[5], p, seed, &v, &["(not completely minimised, no trace)".to_string()], 0, orig, tries.get());
    };
    save(&first.1, &first.0);
    let saved = std::cell::Cell::new(Instant::now());
    let mut best = first.1;
    let mut msg = first.0;
    let over = || t0.elapsed().as_secs_f64() > limit || tries.get() > max;
    let trim = |t: &mut Vec<u32>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    trim(&mut best);
    let better = |t: &[u32], b: &[u32]| {
        let s = |x: &[u32]| (x.iter().filter(|v| **v != 0).count(), x.len(), x.iter().map(|v| *v as u64).sum::<u64>());
        s(t) < s(b)
    };
    let mut improved = true;
    while improved && !over() {
        improved = false;
        let take = |cand: Vec<u32>, best: &mut Vec<u32>, msg: &mut String| -> bool {
            let mut c2 = cand.clone();
            trim(&mut c2);
            if !better(&c2, best) {
                return false;
            }
            if let Some((m, mut t)) = attempt(&c2) {
                trim(&mut t);
                if better(&t, best) || better(&c2, best) {
                    *best = if better(&t, &c2) { t } else { c2 };
                    *msg = m;
                    if saved.get().elapsed().as_millis() > 300 {
                        saved.set(Instant::now());
                        save(best, msg);
                    }
                    return true;
                }
            }
            false
        };
        // shorten
        let mut k = best.len() / 2;
        while k >= 1 && !over() {
            if best.len() > k {
                let c = best[..best.len() - k].to_vec();
                if take(c, &mut best, &mut msg) {
                    improved = true;
                    continue;
                }
            }
            k /= 2;
        }
        // zero and delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + size).min(best.len());
                let mut z = best.clone();
                z[i..e].iter_mut().for_each(|x| *x = 0);
                let mut d = best.clone();
                d.drain(i..e);
                if (best[i..e].iter().any(|x| *x != 0) && take(z, &mut best, &mut msg)) || take(d, &mut best, &mut msg) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 || over() {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && !over() {
            let v0 = best[i];
            let mut step = v0;
            while step > 0 && !over() {
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                if c[i] < step {
                    step /= 2;
                    continue;
                }
                c[i] -= step;
                if take(c, &mut best, &mut msg) {
                    improved = true;
                } else {
                    step /= 2;
                }
            }
            i += 1;
        }
    }
    v.tape = best;
    v.msg = msg;
    let (trace, hash) = if external {
        (vec![format!("{} (no trace)", class)], 0)
    } else {
        match run(&v.tape, true) {
            Some((m, _, r)) => {
                v.msg = m;
                (r.trace, r.hash)
            }
            None => die("minimised tape does not reproduce"),
        }
    };
    write_replay(&a[5], p, seed, &v, &trace, hash, orig, tries.get());
    let _ = std::io::stdout().flush();
    let mut sink = Vec::new();
    let _ = std::io::empty().read_to_end(&mut sink);
}
