//! Interposed libc symbols and the global allocator: every clock read, entropy
//! read, futex wait, file operation and (periodically) heap allocation made by
//! a task of the simulation arrives here and is decided by the choice tape.
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, size_t, ssize_t, timespec};
use rayon_core::sim;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn sys(n: c_long, a: [usize; 6]) -> isize {
    ret(sim::raw_syscall(n as usize, a))
}

// ------------------------------------------------------------------ entropy
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if sim::is_task() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for c in b.chunks_mut(8) {
            let v = sim::next_entropy().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        ENTROPY_READS.fetch_add(1, Relaxed);
        return len as ssize_t;
    }
    sys(libc::SYS_getrandom, [buf as usize, len, flags as usize, 0, 0, 0])
}
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);

// ------------------------------------------------------------------ clock
/// 0: steady 1µs per read; 1: drawn steps and jumps.
pub static CLOCK_MODE: AtomicU32 = AtomicU32::new(0);
#[no_mangle]
pub unsafe extern "C-unwind" fn clock_gettime(id: c_int, ts: *mut timespec) -> c_int {
    if sim::is_task() {
        if sim::in_sim() && CLOCK_MODE.load(Relaxed) == 1 {
            let d = match sim::choose(8) {
                0..=3 => 1_000,
                4 => 0,
                5 => {
                    sim::count("fault.clock_stall");
                    60_000_000_000
                }
                6 => {
                    sim::count("fault.clock_jump");
                    86_400_000_000_000
                }
                _ => 1_000_000,
            };
            sim::advance_ns(d);
        } else {
            sim::advance_ns(1_000);
        }
        let n = sim::now_ns();
        (*ts).tv_sec = (n / 1_000_000_000) as _;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        sim::yield_point("clock");
        return 0;
    }
    sys(libc::SYS_clock_gettime, [id as usize, ts as usize, 0, 0, 0, 0]) as c_int
}

// ------------------------------------------------------------------ futex
#[no_mangle]
pub unsafe extern "C-unwind" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if n == libc::SYS_futex && sim::is_task() {
        let op = (b as c_int) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let w = &*(a as *const AtomicU32);
            if w.load(SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            sim::count("sched.futex_wait");
            if d != 0 {
                // timed wait: let others run, then time out
                sim::must_yield("futex_timed");
                sim::advance_ns(1_000_000);
                if w.load(SeqCst) == c as u32 {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            DEADLOCK_SPINS.with(|s| s.set(s.get() + 1));
            if !sim::must_yield("futex") || DEADLOCK_SPINS.with(|s| s.get()) > 200_000 {
                deadlock();
            }
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            DEADLOCK_SPINS.with(|s| s.set(0));
            let r = sys(n, [a, b, c, d, e, f]);
            sim::yield_point("futex_wake");
            return r as c_long;
        }
    }
    sys(n, [a, b, c, d, e, f]) as c_long
}
thread_local! { static DEADLOCK_SPINS: Cell<u32> = const { Cell::new(0) }; }
fn deadlock() -> ! {
    let m = b"\nDEADLOCK\n";
    unsafe {
        sim::raw_syscall(libc::SYS_write as usize, [1, m.as_ptr() as usize, m.len(), 0, 0, 0]);
        sim::raw_syscall(libc::SYS_exit_group as usize, [77, 0, 0, 0, 0, 0]);
    }
    unreachable!()
}

// ------------------------------------------------------------------ file system
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FsFault {
    None,
    /// The nth faultable operation fails with this errno (nothing happens).
    Errno(i32),
    /// This and the following operations, that many in all, fail; then the device works again.
    Outage(i32, u64),
    /// Interrupted once, to be retried.
    Eintr,
    /// A write accepts only part of the data.
    Short,
    /// The disk accepts `n` more bytes and is full from then on.
    Full,
    /// The process stops here: a prefix of the write reaches the disk, nothing after it does.
    Crash,
}
struct FsState {
    prefix: Vec<u8>,
    fds: Vec<c_int>,
    op: u64,
    fault_op: u64,
    fault: FsFault,
    budget: Option<u64>,
    crashed: bool,
    fired: bool,
    short_every: u64,
    eintr_every: u64,
    log: Vec<String>,
}
static FS_ON: AtomicBool = AtomicBool::new(false);
static FS: std::sync::Mutex<Option<FsState>> = std::sync::Mutex::new(None);

/// Arms the file-system seam for everything below `prefix`.  `fault` strikes the
/// operation with index `fault_op`; independently every `short_every`-th write is
/// short and every `eintr_every`-th is interrupted (0: never).
pub fn fs_arm(prefix: &str, fault: FsFault, fault_op: u64, short_every: u64, eintr_every: u64) {
    *FS.lock().unwrap() = Some(FsState {
        prefix: prefix.as_bytes().to_vec(),
        fds: vec![],
        op: 0,
        fault_op,
        fault,
        budget: None,
        crashed: false,
        fired: false,
        short_every,
        eintr_every,
        log: vec![],
    });
    FS_ON.store(true, SeqCst);
}
pub struct FsReport {
    pub ops: u64,
    pub fired: bool,
    pub crashed: bool,
    pub log: Vec<String>,
}
pub fn fs_disarm() -> FsReport {
    FS_ON.store(false, SeqCst);
    let s = FS.lock().unwrap().take();
    match s {
        Some(s) => FsReport { ops: s.op, fired: s.fired, crashed: s.crashed, log: s.log },
        None => FsReport { ops: 0, fired: false, crashed: false, log: vec![] },
    }
}
enum Verdict {
    Go,
    Err(i32),
    Limit(usize),
    /// write this much for real, then report failure
    Torn(usize),
}
fn fs_hit(kind: &str, write_len: Option<usize>) -> Verdict {
    let v = sim::muted(|| {
        let mut g = FS.lock().unwrap();
        let Some(s) = g.as_mut() else { return Verdict::Go };
        if s.crashed {
            return Verdict::Err(libc::EIO);
        }
        let op = s.op;
        s.op += 1;
        s.log.push(format!("{op}:{kind}{}", write_len.map(|l| format!("[{l}]")).unwrap_or_default()));
        sim::event(kind, write_len.unwrap_or(0) as u64);
        if let (Some(b), Some(l)) = (s.budget, write_len) {
            if b == 0 {
                return Verdict::Err(libc::ENOSPC);
            }
            let n = (l as u64).min(b);
            s.budget = Some(b - n);
            return Verdict::Limit(n as usize);
        }
        if let FsFault::Outage(e, n) = s.fault {
            if op >= s.fault_op && op - s.fault_op < n && kind != "close" {
                s.fired = true;
                sim::count("fault.fs_outage");
                return Verdict::Err(e);
            }
        }
        if op == s.fault_op && s.fault != FsFault::None {
            s.fired = true;
            match s.fault {
                FsFault::None | FsFault::Outage(..) => {}
                FsFault::Errno(e) => {
                    sim::count(match e {
                        libc::ENOSPC => "fault.fs_enospc",
                        libc::EIO => "fault.fs_eio",
                        libc::EACCES => "fault.fs_eacces",
                        _ => "fault.fs_errno",
                    });
                    return Verdict::Err(e);
                }
                FsFault::Eintr => {
                    if kind != "close" {
                        sim::count("fault.fs_eintr");
                        return Verdict::Err(libc::EINTR);
                    }
                }
                FsFault::Short => {
                    if let Some(l) = write_len {
                        sim::count("fault.fs_short_write");
                        return Verdict::Limit(1 + sim::choose(l.max(1) as u64) as usize);
                    }
                }
                FsFault::Full => {
                    sim::count("fault.fs_disk_full");
                    if let Some(l) = write_len {
                        let n = sim::choose(l as u64 + 1);
                        s.budget = Some(0);
                        return if n == 0 { Verdict::Err(libc::ENOSPC) } else { Verdict::Limit(n as usize) };
                    }
                    s.budget = Some(0);
                    return Verdict::Err(libc::ENOSPC);
                }
                FsFault::Crash => {
                    sim::count("fault.crash");
                    s.crashed = true;
                    if let Some(l) = write_len {
                        sim::count("fault.torn_write");
                        return Verdict::Torn(sim::choose(l as u64 + 1) as usize);
                    }
                    // before or after the effect of this operation
                    return if sim::choose(2) == 0 { Verdict::Err(libc::EIO) } else { Verdict::Torn(0) };
                }
            }
        }
        if let Some(l) = write_len {
            if s.short_every > 0 && op % s.short_every == s.short_every - 1 && l > 1 {
                sim::count("fault.fs_short_write");
                return Verdict::Limit(1 + sim::choose(l as u64 - 1) as usize);
            }
            if s.eintr_every > 0 && op % s.eintr_every == s.eintr_every - 1 {
                sim::count("fault.fs_eintr");
                return Verdict::Err(libc::EINTR);
            }
        }
        Verdict::Go
    });
    sim::yield_point("fs");
    v
}
fn fs_active() -> bool {
    FS_ON.load(Relaxed) && sim::in_sim()
}
unsafe fn path_in_scope(p: *const c_char) -> bool {
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    sim::muted(|| FS.lock().unwrap().as_ref().is_some_and(|s| b.starts_with(&s.prefix)))
}
fn fd_in_scope(fd: c_int) -> bool {
    sim::muted(|| FS.lock().unwrap().as_ref().is_some_and(|s| s.fds.contains(&fd)))
}
unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn do_open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || sys(libc::SYS_open, [p as usize, flags as usize, mode as usize, 0, 0, 0]);
    if fs_active() && path_in_scope(p) {
        let w = flags & libc::O_ACCMODE != libc::O_RDONLY;
        match fs_hit(if w { "open_w" } else { "open_r" }, None) {
            Verdict::Err(e) => return fail(e) as c_int,
            Verdict::Torn(_) => {
                let fd = real();
                if fd >= 0 {
                    sys(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]);
                }
                return fail(libc::EIO) as c_int;
            }
            _ => {}
        }
        let fd = real() as c_int;
        if fd >= 0 {
            sim::muted(|| {
                if let Some(s) = FS.lock().unwrap().as_mut() {
                    s.fds.push(fd)
                }
            });
        }
        return fd;
    }
    real() as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fs_active() && fd_in_scope(fd) {
        let r = |k: usize| sys(libc::SYS_write, [fd as usize, buf as usize, k, 0, 0, 0]);
        return match fs_hit("write", Some(n)) {
            Verdict::Err(e) => fail(e),
            Verdict::Limit(k) => r(k.min(n)),
            Verdict::Torn(k) => {
                r(k.min(n));
                fail(libc::EIO)
            }
            Verdict::Go => r(n),
        };
    }
    sys(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C-unwind" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if fs_active() && fd_in_scope(fd) {
        // first non-empty element only: a legal short write
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    sys(libc::SYS_writev, [fd as usize, iov as usize, cnt as usize, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C-unwind" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fs_active() && fd_in_scope(fd) {
        let r = |k: usize| sys(libc::SYS_read, [fd as usize, buf as usize, k, 0, 0, 0]);
        return match fs_hit("read", None) {
            Verdict::Err(e) => fail(e),
            Verdict::Torn(_) => fail(libc::EIO),
            _ => r(n),
        };
    }
    sys(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C-unwind" fn close(fd: c_int) -> c_int {
    if fs_active() && fd_in_scope(fd) {
        sim::muted(|| {
            if let Some(s) = FS.lock().unwrap().as_mut() {
                s.fds.retain(|f| *f != fd)
            }
        });
    }
    sys(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn fsync(fd: c_int) -> c_int {
    if fs_active() && fd_in_scope(fd) {
        if let Verdict::Err(e) = fs_hit("fsync", None) {
            return fail(e) as c_int;
        }
    }
    sys(libc::SYS_fsync, [fd as usize, 0, 0, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C-unwind" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let real = || sys(libc::SYS_mkdir, [p as usize, mode as usize, 0, 0, 0, 0]) as c_int;
    if fs_active() && path_in_scope(p) {
        match fs_hit("mkdir", None) {
            Verdict::Err(e) => return fail(e) as c_int,
            Verdict::Torn(_) => {
                real();
                return fail(libc::EIO) as c_int;
            }
            _ => {}
        }
    }
    real()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let real = || sys(libc::SYS_rename, [a as usize, b as usize, 0, 0, 0, 0]) as c_int;
    if fs_active() && path_in_scope(b) {
        match fs_hit("rename", None) {
            Verdict::Err(e) => return fail(e) as c_int,
            Verdict::Torn(_) => {
                real();
                return fail(libc::EIO) as c_int;
            }
            _ => {}
        }
    }
    real()
}

// ------------------------------------------------------------------ allocator
/// Every `quantum`-th allocation of a task is a preemption point (0: none).
pub static ALLOC_QUANTUM: AtomicU32 = AtomicU32::new(0);
thread_local! { static ALLOCS: Cell<u32> = const { Cell::new(0) }; }
pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let q = ALLOC_QUANTUM.load(Relaxed);
        if q != 0 {
            tick(q);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
}
#[cold]
#[inline(never)]
fn tick(q: u32) {
    if !sim::in_sim() || std::thread::panicking() {
        return;
    }
    let n = ALLOCS.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    if n % q == 0 {
        sim::count("sched.alloc_point");
        sim::muted_guard_yield("alloc");
    }
}

/// Turns address-space randomisation off for this process image (re-executes once).
pub fn disable_aslr() {
    unsafe {
        const NR: u64 = 0x0040000;
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && (cur as u64 & NR) == 0 && std::env::var_os("SIM_NO_REEXEC").is_none() {
            if libc::personality(cur as u64 | NR) >= 0 {
                std::env::set_var("SIM_NO_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
            }
        }
    }
}
