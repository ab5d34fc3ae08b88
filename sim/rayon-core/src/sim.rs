//! Deterministic scheduler, choice tape and event log.
//!
//! One simulated run = one pass of real code under a *baton*: any number of OS
//! threads may exist, exactly one of them (the holder of the baton) executes.
//! Who gets the baton next, and every other nondeterministic decision of the
//! run, is one draw from the choice tape.  The tape is either produced by a
//! seeded PRNG (search) or read back from a file (replay / minimisation).
//! Value 0 is always the "plain" choice (no fault, no switch, smallest size).

use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Arc;

// ---------------------------------------------------------------- raw syscalls
#[inline]
unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
/// Raw kernel call that bypasses every interposed libc symbol.
pub unsafe fn raw_syscall(n: usize, a: [usize; 6]) -> isize {
    raw6(n, a[0], a[1], a[2], a[3], a[4], a[5])
}
const SYS_FUTEX: usize = 202;
fn raw_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(SYS_FUTEX, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn raw_wake(a: &AtomicU32) {
    unsafe { raw6(SYS_FUTEX, a as *const _ as usize, 129, 1, 0, 0, 0) };
}

// ---------------------------------------------------------------- global state
struct Global {
    lock: AtomicBool,
    st: UnsafeCell<Option<State>>,
}
unsafe impl Sync for Global {}
static G: Global = Global {
    lock: AtomicBool::new(false),
    st: UnsafeCell::new(None),
};
static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static MUTED: Cell<u32> = const { Cell::new(0) };
}

struct Task {
    wake: Arc<AtomicU32>,
    runnable: bool,
    done: bool,
    waiter: Option<usize>,
    worker: usize,
}

enum Source {
    Random(u64),
    Tape(Vec<u64>, usize),
}

struct State {
    src: Source,
    rec: Vec<u64>,
    tasks: Vec<Task>,
    current: usize,
    workers: usize,
    hash_state: u64,
    counters: BTreeMap<&'static str, u64>,
    log_hash: u64,
    sched_hash: u64,
    log: Option<Vec<String>>,
    steps: u64,
    max_draws: usize,
    overflow: bool,
    switch_den: u64,
    now_ns: u64,
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    // Allocations made below must not reach a preemption point.
    let _ = MUTED.try_with(|m| m.set(m.get() + 1));
    let r = with_locked(f);
    let _ = MUTED.try_with(|m| m.set(m.get() - 1));
    r
}
fn with_locked<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    while G
        .lock
        .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {
        std::hint::spin_loop();
    }
    struct Unlock;
    impl Drop for Unlock {
        fn drop(&mut self) {
            G.lock.store(false, Ordering::Release);
        }
    }
    let _u = Unlock;
    unsafe { (*G.st.get()).as_mut().map(f) }
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
    splitmix(&mut x)
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

#[derive(Debug, Clone, Default)]
pub struct RunReport {
    pub tape: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub log: Vec<String>,
    pub steps: u64,
    pub tasks: u64,
    pub overflow: bool,
    pub sim_ns: u64,
}

pub enum Input<'a> {
    Seed(u64),
    Tape(&'a [u64]),
}

/// Runs `f` as task 0 of a fresh simulation on a fresh OS thread (so that
/// per-thread hash keys are re-drawn) and returns its result with the report.
pub fn run<R: Send>(
    input: Input,
    keep_log: bool,
    max_draws: usize,
    f: impl FnOnce() -> R + Send,
) -> (std::thread::Result<R>, RunReport) {
    let src = match input {
        Input::Seed(s) => Source::Random(s),
        Input::Tape(t) => Source::Tape(t.to_vec(), 0),
    };
    let st = State {
        src,
        rec: vec![],
        tasks: vec![Task {
            wake: Arc::new(AtomicU32::new(0)),
            runnable: true,
            done: false,
            waiter: None,
            worker: 0,
        }],
        current: 0,
        workers: 1,
        hash_state: 0,
        counters: BTreeMap::new(),
        log_hash: 0,
        sched_hash: 0,
        log: keep_log.then(Vec::new),
        steps: 0,
        max_draws,
        overflow: false,
        switch_den: 4,
        now_ns: 1_700_000_000_000_000_000,
    };
    assert!(!ACTIVE.swap(true, Ordering::SeqCst));
    while G
        .lock
        .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {}
    unsafe { *G.st.get() = Some(st) };
    G.lock.store(false, Ordering::Release);

    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                TASK.with(|t| t.set(0));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                TASK.with(|t| t.set(usize::MAX));
                r
            })
            .unwrap()
            .join()
            .unwrap()
    });
    ACTIVE.store(false, Ordering::SeqCst);
    while G
        .lock
        .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {}
    let st = unsafe { (*G.st.get()).take().unwrap() };
    G.lock.store(false, Ordering::Release);
    let rep = RunReport {
        tape: st.rec,
        counters: st.counters.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        log_hash: st.log_hash,
        sched_hash: st.sched_hash,
        log: st.log.unwrap_or_default(),
        steps: st.steps,
        tasks: st.tasks.len() as u64,
        overflow: st.overflow,
        sim_ns: st.now_ns - 1_700_000_000_000_000_000,
    };
    (res, rep)
}

/// Is the calling thread a task of the running simulation (and not muted)?
pub fn in_sim() -> bool {
    ACTIVE.load(Ordering::Relaxed)
        && TASK.try_with(|t| t.get() != usize::MAX).unwrap_or(false)
        && MUTED.try_with(|m| m.get() == 0).unwrap_or(false)
}
/// The calling thread belongs to the simulation, muted or not.
pub fn is_task() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TASK.try_with(|t| t.get() != usize::MAX).unwrap_or(false)
}
pub fn task_id() -> Option<usize> {
    TASK.try_with(|t| t.get()).ok().filter(|t| *t != usize::MAX)
}

/// Harness code (oracles, file inspection) runs muted: no yield points, no faults.
pub fn muted<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            MUTED.with(|m| m.set(m.get() - 1));
        }
    }
    MUTED.with(|m| m.set(m.get() + 1));
    let _d = D;
    f()
}

/// One draw in 0..n.  0 is the plain choice.
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|s| draw(s, n)).expect("draw outside of a simulation")
}
fn draw(s: &mut State, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    s.steps += 1;
    if s.rec.len() >= s.max_draws {
        s.overflow = true;
        return 0;
    }
    let v = match &mut s.src {
        Source::Random(x) => {
            let r = splitmix(x);
            ((r as u128 * n as u128) >> 64) as u64
        }
        Source::Tape(t, p) => {
            let v = t.get(*p).copied().unwrap_or(0);
            *p += 1;
            v.min(n - 1)
        }
    };
    s.rec.push(v);
    v
}
pub fn tape_len() -> usize {
    with(|s| s.rec.len()).unwrap_or(0)
}
/// True with probability num/den; false is the plain choice.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    choose(den) >= den - num
}
pub fn count(label: &'static str) {
    with(|s| *s.counters.entry(label).or_insert(0) += 1);
}
pub fn count_n(label: &'static str, n: u64) {
    with(|s| *s.counters.entry(label).or_insert(0) += n);
}
/// Append to the event log (hash always, text only when a log is kept).
pub fn event(label: &str, v: u64) {
    with(|s| {
        s.log_hash = mix(mix(s.log_hash, hash_str(label)), v);
        if let Some(l) = &mut s.log {
            let t = s.current;
            if l.len() < 200_000 {
                l.push(format!("t{t} {label} {v}"));
            }
        }
    });
}
pub fn log_hash() -> u64 {
    with(|s| s.log_hash).unwrap_or(0)
}
/// Number of virtual worker threads of the simulated pool and how eagerly the
/// baton moves at yield points (1/den).
pub fn configure(workers: usize, switch_den: u64) {
    with(|s| {
        s.workers = workers.max(1);
        s.switch_den = switch_den.max(1);
    });
}
pub fn set_hash_seed(x: u64) {
    with(|s| s.hash_state = x);
}
/// Next 64 bits for the interposed `getrandom`.
pub fn next_entropy() -> u64 {
    with(|s| splitmix(&mut s.hash_state)).unwrap_or(0)
}
pub fn now_ns() -> u64 {
    with(|s| s.now_ns).unwrap_or(0)
}
pub fn advance_ns(d: u64) {
    with(|s| s.now_ns += d);
}
pub fn workers() -> usize {
    if !ACTIVE.load(Ordering::Relaxed) {
        return 1;
    }
    with(|s| s.workers).unwrap_or(1)
}
pub fn worker_index() -> Option<usize> {
    let t = task_id()?;
    with(|s| s.tasks[t].worker)
}

fn wait_baton(w: &AtomicU32) {
    loop {
        if w.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        raw_wait(w, 0);
    }
}
fn give_baton(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    raw_wake(w);
}

fn hand_over(me: usize, next: usize, label: &str) {
    let (nw, mw) = with(|s| {
        s.current = next;
        s.sched_hash = mix(mix(s.sched_hash, next as u64), hash_str(label));
        *s.counters.entry("sched.switch").or_insert(0) += 1;
        (s.tasks[next].wake.clone(), s.tasks[me].wake.clone())
    })
    .unwrap();
    give_baton(&nw);
    wait_baton(&mw);
}

/// The scheduler may move the baton here.
pub fn yield_point(label: &'static str) {
    if !in_sim() {
        return;
    }
    let me = TASK.with(|t| t.get());
    let next = with(|s| {
        let others: Vec<usize> = (0..s.tasks.len())
            .filter(|i| *i != me && s.tasks[*i].runnable && !s.tasks[*i].done)
            .collect();
        if others.is_empty() {
            return None;
        }
        *s.counters.entry("sched.yield_point").or_insert(0) += 1;
        let stay = s.switch_den - 1;
        let v = draw(s, stay * others.len() as u64 + others.len() as u64);
        let stay_n = stay * others.len() as u64;
        if v < stay_n.max(1) && stay_n > 0 {
            None
        } else {
            Some(others[((v - stay_n) as usize).min(others.len() - 1)])
        }
    })
    .unwrap();
    if let Some(n) = next {
        hand_over(me, n, label);
    }
}

/// Preemption point reached from the allocator: only when nothing the harness
/// owns is on the stack.
pub fn muted_guard_yield(label: &'static str) {
    yield_point(label)
}

/// Called when the current task cannot proceed until another one has run.
/// Returns false if no other task can run.
pub fn must_yield(label: &'static str) -> bool {
    let Some(me) = task_id() else { return false };
    let next = with(|s| {
        let others: Vec<usize> = (0..s.tasks.len())
            .filter(|i| *i != me && s.tasks[*i].runnable && !s.tasks[*i].done)
            .collect();
        if others.is_empty() {
            None
        } else {
            let k = draw(s, others.len() as u64) as usize;
            Some(others[k.min(others.len() - 1)])
        }
    })
    .unwrap();
    match next {
        Some(n) => {
            hand_over(me, n, label);
            true
        }
        None => false,
    }
}

struct Finisher(Cell<usize>);
impl Drop for Finisher {
    fn drop(&mut self) {
        let id = self.0.get();
        if id != usize::MAX {
            TASK.with(|t| t.set(usize::MAX));
            finish(id);
        }
    }
}
thread_local! { static FINISHER: Finisher = const { Finisher(Cell::new(usize::MAX)) }; }

fn finish(me: usize) {
    let nw = with(|s| {
        s.tasks[me].done = true;
        s.tasks[me].runnable = false;
        if let Some(w) = s.tasks[me].waiter.take() {
            s.tasks[w].runnable = true;
        }
        let others: Vec<usize> = (0..s.tasks.len())
            .filter(|i| s.tasks[*i].runnable && !s.tasks[*i].done)
            .collect();
        let k = draw(s, others.len() as u64) as usize;
        let n = others[k.min(others.len() - 1)];
        s.current = n;
        s.sched_hash = mix(s.sched_hash, 0x1000 + n as u64);
        s.tasks[n].wake.clone()
    })
    .unwrap();
    give_baton(&nw);
}

pub struct Handle<R> {
    id: usize,
    join: Option<std::thread::JoinHandle<()>>,
    slot: Arc<std::sync::Mutex<Option<std::thread::Result<R>>>>,
}

/// Spawns a simulated thread; it starts running only when given the baton.
///
/// # Safety
/// The caller must join the handle before anything borrowed by `f` ends.
pub unsafe fn spawn_unchecked<'a, R: Send + 'a>(
    worker: usize,
    f: impl FnOnce() -> R + Send + 'a,
) -> Handle<R> {
    // The pool's own bookkeeping is not preemptible.
    MUTED.with(|m| m.set(m.get() + 1));
    let slot: Arc<std::sync::Mutex<Option<std::thread::Result<R>>>> =
        Arc::new(std::sync::Mutex::new(None));
    let wake = Arc::new(AtomicU32::new(0));
    let id = with(|s| {
        s.tasks.push(Task {
            wake: wake.clone(),
            runnable: true,
            done: false,
            waiter: None,
            worker,
        });
        *s.counters.entry("sched.task").or_insert(0) += 1;
        s.tasks.len() - 1
    })
    .unwrap();
    let slot2 = slot.clone();
    let body = move || {
        // registered first, so dropped last: the baton moves on when every other
        // per-thread destructor of this thread has run
        FINISHER.with(|f| f.0.set(id));
        wait_baton(&wake);
        TASK.with(|t| t.set(id));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        MUTED.with(|m| m.set(m.get() + 1));
        *slot2.lock().unwrap() = Some(r);
        drop(slot2);
    };
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(body);
    let body: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(body);
    let join = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(body)
        .unwrap();
    MUTED.with(|m| m.set(m.get() - 1));
    Handle {
        id,
        join: Some(join),
        slot,
    }
}

impl<R> Handle<R> {
    pub fn is_done(&self) -> bool {
        with(|s| s.tasks[self.id].done).unwrap()
    }
    pub fn join(mut self) -> std::thread::Result<R> {
        let me = task_id().expect("join outside simulation");
        if !self.is_done() {
            let next = with(|s| {
                s.tasks[self.id].waiter = Some(me);
                s.tasks[me].runnable = false;
                let others: Vec<usize> = (0..s.tasks.len())
                    .filter(|i| s.tasks[*i].runnable && !s.tasks[*i].done)
                    .collect();
                let k = draw(s, others.len() as u64) as usize;
                others[k.min(others.len() - 1)]
            })
            .unwrap();
            hand_over(me, next, "join");
        }
        let _ = self.join.take().unwrap().join();
        let r = self.slot.lock().unwrap().take().unwrap();
        r
    }
}

/// Live (unfinished) tasks.
pub fn live_tasks() -> usize {
    with(|s| s.tasks.iter().filter(|t| !t.done).count()).unwrap_or(0)
}
fn free_worker() -> Option<usize> {
    with(|s| {
        let used: Vec<usize> = s
            .tasks
            .iter()
            .filter(|t| !t.done)
            .map(|t| t.worker)
            .collect();
        let free: Vec<usize> = (0..s.workers).filter(|w| !used.contains(w)).collect();
        if free.is_empty() {
            return None;
        }
        let k = draw(s, free.len() as u64) as usize;
        Some(free[k])
    })
    .flatten()
}

/// How the simulated pool executes one fork.
pub fn fork<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(bool) -> RA + Send,
    B: FnOnce(bool) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !is_task() {
        return (a(false), b(false));
    }
    // 0,1: not stolen; 2: stolen and interleaved; 3: stolen and complete before `a` starts.
    let mode = choose(4);
    if mode < 2 {
        count("sched.join_local");
        let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a(false)));
        match ra {
            Ok(ra) => (ra, b(false)),
            Err(e) => std::panic::resume_unwind(e),
        }
    } else {
        let Some(w) = free_worker() else {
            count("sched.join_local");
            return (a(false), b(false));
        };
        count("sched.join_stolen");
        let h = unsafe { spawn_unchecked(w, move || b(true)) };
        if mode == 3 {
            let rb = h.join();
            let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a(false)));
            return match (ra, rb) {
                (Ok(ra), Ok(rb)) => (ra, rb),
                (Err(e), _) | (_, Err(e)) => std::panic::resume_unwind(e),
            };
        }
        yield_point("fork");
        let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a(false)));
        let rb = h.join();
        match (ra, rb) {
            (Ok(ra), Ok(rb)) => (ra, rb),
            (Err(e), _) | (_, Err(e)) => std::panic::resume_unwind(e),
        }
    }
}
