//! Search, minimisation, replay and evidence.
use rayon_core::sim::{self, Input, RunReport};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Cx {
    pub thorough: bool,
    pub scratch: PathBuf,
}

#[derive(Default)]
pub struct Outcome {
    pub nontrivial: bool,
    pub signature: u64,
    pub sample: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<Outcome, Violation>;
pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { return $crate::driver::violation($class, format!($($a)*)); }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Cx) -> Res,
    pub quick_runs: u64,
    /// Throw-away runs at the start of a process.
    pub warm: u64,
    pub thorough_runs: u64,
    /// Stop starting new runs after this long (safety cap, not the deciding bound).
    pub quick_cap_s: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        sim::muted(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {m} @ {l}\n{}", std::backtrace::Backtrace::force_capture());
            }
            *LAST_PANIC.lock().unwrap() = format!("{m} @ {l}");
        })
    }));
}
/// Runs code under test, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.lock().unwrap().clone()),
    }
}
/// As `guarded`, where a panic violates the property.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    guarded(f).map_err(|m| Violation { class: format!("panic-{what}"), detail: m })
}

pub const MAX_DRAWS: usize = 400_000;

pub fn execute(p: &Prop, cx: &Cx, input: Input, keep_log: bool) -> (Res, RunReport) {
    crate::seams::ALLOC_QUANTUM.store(0, std::sync::atomic::Ordering::SeqCst);
    crate::seams::CLOCK_MODE.store(0, std::sync::atomic::Ordering::SeqCst);
    let (r, rep) = sim::run(input, keep_log, MAX_DRAWS, || (p.run)(cx));
    crate::seams::ALLOC_QUANTUM.store(0, std::sync::atomic::Ordering::SeqCst);
    crate::seams::fs_disarm();
    let res = match r {
        Ok(r) => r,
        Err(_) => violation("panic", LAST_PANIC.lock().unwrap().clone()),
    };
    (res, rep)
}

/// A few throw-away runs, so that what the process initialises once (log call
/// sites and the like) is the same for every run that counts.
pub fn warm(p: &Prop, cx: &Cx) {
    static DONE: std::sync::Once = std::sync::Once::new();
    DONE.call_once(|| {
        for i in 0..p.warm {
            let _ = execute(p, cx, Input::Seed(run_seed(0x77a6, p.id, i)), false);
        }
    });
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut x = seed ^ 0x5151_7eed;
    for b in id.bytes() {
        x = sim::splitmix(&mut x) ^ b as u64;
    }
    x = sim::splitmix(&mut x) ^ i;
    sim::splitmix(&mut x)
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Msg {
    kind: String, // start | done | viol
    i: u64,
    #[serde(default)]
    nontrivial: bool,
    #[serde(default)]
    sig: u64,
    #[serde(default)]
    sched: u64,
    #[serde(default)]
    log_hash: u64,
    #[serde(default)]
    steps: u64,
    #[serde(default)]
    draws: u64,
    #[serde(default)]
    sim_ns: u64,
    #[serde(default)]
    overflow: bool,
    #[serde(default)]
    ms: u64,
    #[serde(default)]
    sample: String,
    #[serde(default)]
    counters: BTreeMap<String, u64>,
    #[serde(default)]
    viol: Option<Violation>,
    #[serde(default)]
    tape: Vec<u64>,
}
fn say(m: &Msg) {
    let mut s = serde_json::to_string(m).unwrap();
    s.push('\n');
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

pub fn worker(p: &Prop, cx: &Cx, seed: u64, from: u64, to: u64, stride: u64, cap_s: u64) {
    let t0 = Instant::now();
    let mut i = from;
    if i < to {
        say(&Msg { kind: "start".into(), i, ..Default::default() });
        warm(p, cx);
    }
    while i < to {
        if t0.elapsed() > Duration::from_secs(cap_s) {
            break;
        }
        say(&Msg { kind: "start".into(), i, ..Default::default() });
        let t = Instant::now();
        let (res, rep) = execute(p, cx, Input::Seed(run_seed(seed, p.id, i)), false);
        let mut m = Msg {
            kind: "done".into(),
            i,
            sched: rep.sched_hash,
            log_hash: rep.log_hash,
            steps: rep.steps,
            draws: rep.tape.len() as u64,
            sim_ns: rep.sim_ns,
            overflow: rep.overflow,
            ms: t.elapsed().as_millis() as u64,
            counters: rep.counters,
            ..Default::default()
        };
        match res {
            Ok(o) => {
                m.nontrivial = o.nontrivial;
                m.sig = o.signature;
                if i < 8 {
                    m.sample = o.sample;
                }
            }
            Err(v) => {
                m.kind = "viol".into();
                m.viol = Some(v);
                m.tape = rep.tape;
            }
        }
        say(&m);
        i += stride;
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub thorough: bool,
    pub verif_seed: u64,
    pub run: u64,
    pub violation: Violation,
    /// None: the run is replayed from its seed (it ended without returning a tape).
    pub tape: Option<Vec<u64>>,
    pub original_draws: u64,
    pub minimised: bool,
    /// Set when the violation needs the runs (first, stride) before it in the same process.
    #[serde(default)]
    pub sequence: Option<(u64, u64)>,
    pub log: Vec<String>,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Shrinks the tape of a replay file in place.
pub fn minimise(p: &Prop, cx: &Cx, path: &Path, cap: Duration) {
    warm(p, cx);
    let mut r: Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let t0 = Instant::now();
    let Some(mut best) = r.tape.clone() else { return };
    let class = r.violation.class.clone();
    let mut detail = r.violation.clone();
    let try_ = |t: &[u64]| -> Option<(Vec<u64>, Violation)> {
        let (res, rep) = execute(p, cx, Input::Tape(t), false);
        match res {
            Err(v) if v.class == class => {
                let mut tp = rep.tape;
                while tp.last() == Some(&0) {
                    tp.pop();
                }
                Some((tp, v))
            }
            _ => None,
        }
    };
    let smaller = |a: &[u64], b: &[u64]| {
        (a.len(), a.iter().filter(|x| **x != 0).count(), a) < (b.len(), b.iter().filter(|x| **x != 0).count(), b)
    };
    match try_(&best) {
        Some((t, v)) => {
            best = t;
            detail = v;
        }
        None => return, // not reproduced from its tape: leave as is
    }
    let save = |best: &Vec<u64>, detail: &Violation, r: &mut Replay| {
        r.tape = Some(best.clone());
        r.violation = detail.clone();
        r.minimised = true;
        std::fs::write(path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    };
    let mut progress = true;
    'outer: while progress {
        progress = false;
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut pos = 0;
            while pos < best.len() {
                if t0.elapsed() > cap {
                    break 'outer;
                }
                let end = (pos + k).min(best.len());
                // delete
                let mut c = best[..pos].to_vec();
                c.extend_from_slice(&best[end..]);
                if let Some((t, v)) = try_(&c) {
                    if smaller(&t, &best) {
                        best = t;
                        detail = v;
                        progress = true;
                        continue;
                    }
                }
                // zero
                if best[pos..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[pos..end].iter_mut().for_each(|x| *x = 0);
                    if let Some((t, v)) = try_(&c) {
                        if smaller(&t, &best) {
                            best = t;
                            detail = v;
                            progress = true;
                        }
                    }
                }
                pos += k;
            }
            save(&best, &detail, &mut r);
            if k == 1 {
                break;
            }
            k /= 2;
        }
        for pos in 0..best.len() {
            if t0.elapsed() > cap || pos >= best.len() {
                break;
            }
            for nv in [best[pos] / 2, best[pos].saturating_sub(1)] {
                if pos < best.len() && nv < best[pos] {
                    let mut c = best.clone();
                    c[pos] = nv;
                    if let Some((t, v)) = try_(&c) {
                        if smaller(&t, &best) {
                            best = t;
                            detail = v;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
    let (_, rep) = execute(p, cx, Input::Tape(&best), true);
    r.log = rep.log.into_iter().take(2000).collect();
    save(&best, &detail, &mut r);
}

/// Re-executes a replay file. Exit code 1 with the VIOLATION line when it fails the same way.
pub fn replay(p: &Prop, cx: &Cx, path: &Path, quiet: bool) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    warm(p, cx);
    if let Some((from, stride)) = r.sequence {
        let mut i = from;
        while i < r.run {
            let _ = execute(p, cx, Input::Seed(run_seed(r.verif_seed, p.id, i)), false);
            i += stride;
        }
    }
    let (res, rep) = match &r.tape {
        Some(t) => execute(p, cx, Input::Tape(t), true),
        None => execute(p, cx, Input::Seed(run_seed(r.verif_seed, p.id, r.run)), true),
    };
    match res {
        Err(v) => {
            if !quiet {
                for l in rep.log.iter().take(400) {
                    println!("  {l}");
                }
                println!("class={} detail={}", v.class, v.detail);
                println!("VIOLATION property={} replay={}", p.id, path.display());
            }
            if v.class == r.violation.class {
                1
            } else {
                3
            }
        }
        Ok(_) => {
            if !quiet {
                println!("replay did not violate {}", p.id);
            }
            0
        }
    }
}

#[derive(Deserialize)]
struct Finding {
    property: String,
    status: String,
    #[serde(default)]
    class: String,
    #[serde(default)]
    detail_contains: String,
    what: String,
}
impl Finding {
    fn covers(&self, id: &str, v: &Violation) -> bool {
        self.property == id && self.status == "known" && self.class == v.class && v.detail.contains(&self.detail_contains)
    }
}
fn findings() -> Vec<Finding> {
    std::fs::read(verif_dir().join("known_findings.json"))
        .ok()
        .map(|b| serde_json::from_slice(&b).expect("known_findings.json"))
        .unwrap_or_default()
}

struct Seen {
    i: u64,
    from: u64,
    v: Violation,
    tape: Option<Vec<u64>>,
}

pub fn check(p: &Prop, thorough: bool, seed: u64, runs_override: Option<u64>, cap_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let runs = runs_override.unwrap_or(if thorough { p.thorough_runs } else { p.quick_runs });
    let cap = cap_override.unwrap_or(if thorough { 3000 } else { p.quick_cap_s });
    let hang = Duration::from_secs(if thorough { 400 } else { 150 });
    let tier = if thorough { "thorough" } else { "quick" };
    println!("property={} tier={tier} VERIF_SEED={seed} runs={runs} workers={nw}", p.id);
    let exe = std::env::current_exe().unwrap();
    let scratch_root = std::env::temp_dir().join(format!("powdr-sim.{}", std::process::id()));
    std::fs::create_dir_all(&scratch_root).unwrap();

    let all: Mutex<Vec<Msg>> = Mutex::new(vec![]);
    let bad: Mutex<Vec<Seen>> = Mutex::new(vec![]);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let late: Mutex<Option<Instant>> = Mutex::new(None);
    let known = findings();
    std::thread::scope(|s| {
        for w in 0..nw {
            let (all, bad, exe, scratch_root, stop, late, known) = (&all, &bad, &exe, &scratch_root, &stop, &late, &known);
            s.spawn(move || {
                let mut from = w;
                loop {
                    if from >= runs || stop.load(std::sync::atomic::Ordering::SeqCst) {
                        return;
                    }
                    let left = cap.saturating_sub(t0.elapsed().as_secs());
                    if left == 0 {
                        return;
                    }
                    let mut c = Command::new(exe)
                        .args(["work", p.id, tier, &seed.to_string(), &from.to_string(), &runs.to_string(), &nw.to_string(), &left.to_string()])
                        .env("SIM_SCRATCH", scratch_root.join(format!("w{w}")))
                        .stdout(Stdio::piped())
                        .stderr(if std::env::var_os("SIM_PANICS").is_some() { Stdio::inherit() } else { Stdio::null() })
                        .stdin(Stdio::null())
                        .spawn()
                        .expect("worker");
                    let out = c.stdout.take().unwrap();
                    let (tx, rx) = std::sync::mpsc::channel();
                    let rd = std::thread::spawn(move || {
                        for l in BufReader::new(out).lines() {
                            match l {
                                Ok(l) => {
                                    if tx.send(l).is_err() {
                                        break;
                                    }
                                }
                                Err(_) => break,
                            }
                        }
                    });
                    let mut current: Option<u64> = None;
                    let mut ended: Option<&str> = None;
                    let mut deadlock = false;
                    loop {
                        match rx.recv_timeout(hang) {
                            Ok(l) => {
                                if l == "DEADLOCK" {
                                    deadlock = true;
                                    continue;
                                }
                                let Ok(m) = serde_json::from_str::<Msg>(&l) else { continue };
                                match m.kind.as_str() {
                                    "start" => current = Some(m.i),
                                    k => {
                                        current = None;
                                        if k == "viol" {
                                            let mut b = bad.lock().unwrap();
                                            let v = m.viol.clone().unwrap();
                                            if !known.iter().any(|f| f.covers(p.id, &v)) {
                                                late.lock().unwrap().get_or_insert_with(Instant::now);
                                            }
                                            b.push(Seen { i: m.i, from, v, tape: Some(m.tape.clone()) });
                                            if b.len() >= 40 {
                                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                                            }
                                        }
                                        let mut m = m;
                                        m.tape = vec![];
                                        all.lock().unwrap().push(m);
                                    }
                                }
                                // no need to go on for long once something was found
                                if !thorough && late.lock().unwrap().is_some_and(|t| t.elapsed() > Duration::from_secs(5)) {
                                    stop.store(true, std::sync::atomic::Ordering::SeqCst);
                                }
                                if stop.load(std::sync::atomic::Ordering::SeqCst) {
                                    let _ = c.kill();
                                    break;
                                }
                            }
                            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                                ended = Some("hang");
                                let _ = c.kill();
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    let st = c.wait();
                    drop(rx);
                    let _ = rd.join();
                    if stop.load(std::sync::atomic::Ordering::SeqCst) {
                        return;
                    }
                    match current {
                        None if st.map(|s| s.success()).unwrap_or(false) => return,
                        None => return,
                        Some(i) => {
                            let class = if deadlock { "deadlock" } else { ended.unwrap_or("abort") };
                            bad.lock().unwrap().push(Seen {
                                i,
                                from,
                                v: Violation { class: class.into(), detail: format!("the run ended in: {class}") },
                                tape: None,
                            });
                            from = i + nw;
                        }
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut all = all.into_inner().unwrap();
    all.sort_by_key(|m| m.i);
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| b.i);

    // Determinism: a sample of the runs again, in one fresh process.
    let det_n = if thorough { 64 } else { 12u64 };
    let mut det_same = 0u64;
    let mut det_total = 0u64;
    let mut det_bad: Option<u64> = None;
    if bad.is_empty() && !all.is_empty() {
        let done = all.len() as u64;
        let step = (done / det_n).max(1);
        let idx: Vec<u64> = all.iter().step_by(step as usize).map(|m| m.i).take(det_n as usize).collect();
        let parts: Vec<(u64, Option<u64>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4usize)
                .map(|k| {
                    let (idx, exe, scratch_root) = (&idx, &exe, &scratch_root);
                    s.spawn(move || {
                        let mut v = vec![];
                        let mine: Vec<String> = idx.iter().skip(k).step_by(4).map(|i| i.to_string()).collect();
                        if mine.is_empty() {
                            return v;
                        }
                        let o = Command::new(exe)
                            .args(["rerun", p.id, tier, &seed.to_string(), &mine.join(",")])
                            .env("SIM_SCRATCH", scratch_root.join(format!("d{k}")))
                            .stderr(Stdio::null())
                            .output();
                        if let Ok(o) = o {
                            for l in String::from_utf8_lossy(&o.stdout).lines() {
                                if let Ok(m) = serde_json::from_str::<Msg>(l) {
                                    if m.kind != "start" {
                                        v.push((m.i, Some(m.log_hash ^ m.sched.rotate_left(7) ^ m.draws.rotate_left(40))));
                                    }
                                }
                            }
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        for (i, h) in parts {
            det_total += 1;
            let m = all.iter().find(|m| m.i == i).unwrap();
            if Some(m.log_hash ^ m.sched.rotate_left(7) ^ m.draws.rotate_left(40)) == h {
                det_same += 1;
            } else {
                det_bad = Some(i);
            }
        }
    }

    // Known findings are reported, never searched further.
    let mut known_hit: BTreeSet<usize> = BTreeSet::new();
    let mut fresh: Vec<Seen> = vec![];
    for b in bad {
        match known.iter().position(|f| f.covers(p.id, &b.v)) {
            Some(k) => {
                known_hit.insert(k);
            }
            None => fresh.push(b),
        }
    }
    for f in known.iter().filter(|f| f.property == p.id && f.status == "known") {
        println!("KNOWN-FINDING: property={} {}", p.id, f.what);
    }

    let mut reported = 0;
    let replay_dir = verif_dir().join("replays");
    let mut classes: BTreeMap<String, usize> = BTreeMap::new();
    for b in &fresh {
        let n = classes.entry(b.v.class.clone()).or_default();
        *n += 1;
        if *n > 1 || reported >= 3 {
            continue;
        }
        std::fs::create_dir_all(&replay_dir).unwrap();
        let path = replay_dir.join(format!("{}-{}-{}-{}.json", p.id, tier, seed, b.i));
        let r = Replay {
            property: p.id.into(),
            thorough,
            verif_seed: seed,
            run: b.i,
            violation: b.v.clone(),
            tape: b.tape.clone(),
            original_draws: b.tape.as_ref().map(|t| t.len()).unwrap_or(0) as u64,
            minimised: false,
            sequence: None,
            log: vec![],
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        let run_child = |cmd: &str, secs: u64| -> Option<i32> {
            let mut c = Command::new(&exe)
                .args([cmd, p.id, path.to_str().unwrap(), &secs.to_string()])
                .env("SIM_SCRATCH", scratch_root.join("m"))
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .ok()?;
            let t = Instant::now();
            loop {
                if let Ok(Some(s)) = c.try_wait() {
                    return s.code();
                }
                if t.elapsed() > Duration::from_secs(secs * 2 + 60) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        };
        let mut confirmed = "not attempted";
        if b.tape.is_some() {
            run_child("minimise", if thorough { 120 } else { 30 });
            confirmed = match run_child("confirm", 60) {
                Some(1) => "reproduced in a fresh process",
                Some(_) => {
                    // fall back to the original tape
                    std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                    match run_child("confirm", 60) {
                        Some(1) => "reproduced in a fresh process (original tape)",
                        _ => {
                            let mut r2 = r.clone();
                            r2.sequence = Some((b.from, nw));
                            std::fs::write(&path, serde_json::to_vec_pretty(&r2).unwrap()).unwrap();
                            match run_child("confirm", 120) {
                                Some(1) => "reproduced in a fresh process (with the runs before it)",
                                _ => "NOT reproduced in a fresh process",
                            }
                        }
                    }
                }
                None => "ended abnormally again",
            };
        } else if run_child("confirm", 60).map(|c| c != 0).unwrap_or(true) {
            confirmed = "ended abnormally again in a fresh process";
        }
        if confirmed == "NOT reproduced in a fresh process" || (b.tape.is_none() && confirmed == "not attempted") {
            // Something outside the simulation (machine load, memory) ended it: not evidence against the code.
            println!("note: run {} ({}) did not reproduce; not reported", b.i, b.v.class);
            if std::env::var_os("SIM_STRICT").is_none() && b.tape.is_none() {
                continue;
            }
            if det_bad.is_none() {
                det_bad = Some(b.i);
            }
            continue;
        }
        reported += 1;
        let fin: Replay = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
        println!("class={} run={} draws {} -> {} ({confirmed})", fin.violation.class, b.i, fin.original_draws, fin.tape.as_ref().map(|t| t.len()).unwrap_or(0));
        println!("{}", fin.violation.detail.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let _ = std::fs::remove_dir_all(&scratch_root);

    // Evidence
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    for m in &all {
        for (k, v) in &m.counters {
            *counters.entry(k.clone()).or_default() += v;
        }
    }
    let part = |pre: &str| -> BTreeMap<String, u64> {
        counters.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect()
    };
    let distinct: BTreeSet<(u64, u64)> = all.iter().filter(|m| m.nontrivial).map(|m| (m.sig, m.sched)).collect();
    let scheds: BTreeSet<u64> = all.iter().map(|m| m.sched).collect();
    let logs: BTreeSet<u64> = all.iter().map(|m| m.log_hash).collect();
    let samples: Vec<_> = all
        .iter()
        .filter(|m| !m.sample.is_empty())
        .take(4)
        .map(|m| json!({"run": m.i, "seed": run_seed(seed, p.id, m.i), "draws": m.draws, "case": m.sample}))
        .collect();
    let samples = if samples.is_empty() { vec![json!("no completed run in this batch")] } else { samples };
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": all.len(),
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs_per_hour": (all.len() as f64 / search_s * 3600.0) as u64,
            "search_wall_s": search_s,
            "simulated_time_s": all.iter().map(|m| m.sim_ns as f64 / 1e9).sum::<f64>(),
            "scheduling_and_fault_decisions": all.iter().map(|m| m.draws).sum::<u64>(),
            "faults_injected": part("fault."),
            "scheduler": part("sched."),
            "probes": part("probe."),
            "distinct_interleavings": scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of (task given the baton, reason) of a run",
            "distinct_event_logs": logs.len(),
            "runs_cut_at_draw_limit": all.iter().filter(|m| m.overflow).count(),
            "determinism_reruns": {"rerun_in_fresh_process": det_total, "identical_schedule_and_log": det_same},
            "components_real": p.real,
            "components_stub": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": reported,
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if let Some(i) = det_bad {
        println!("note: run {i} was not bit-identical when repeated in a fresh process");
    }
    println!(
        "runs={} of {runs} distinct_nontrivial={} interleavings={} faults={:?} determinism={det_same}/{det_total} wall={wall:.1}s max_run_ms={}",
        all.len(), distinct.len(), scheds.len(), part("fault."), all.iter().map(|m| m.ms).max().unwrap_or(0)
    );
    println!("probes={:?}", part("probe."));
    if reported > 0 {
        1
    } else {
        0
    }
}
