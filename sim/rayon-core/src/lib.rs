//! Drop-in replacement for `rayon-core` whose thread pool is the simulator's
//! deterministic scheduler.  The parallel iterators of `rayon` itself are the
//! real, unmodified ones; only fork/join, pool size and stealing are simulated.
pub mod sim;

use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::sync::Mutex;

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    sim::workers()
}
pub fn current_thread_index() -> Option<usize> {
    sim::worker_index()
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    Some(false)
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    sim::fork(move |_| a(), move |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let c = |migrated| FnContext {
        migrated,
        _m: PhantomData,
    };
    sim::fork(move |m| a(c(m)), move |m| b(c(m)))
}

type Job<'s> = Box<dyn FnOnce() + Send + 's>;
struct Queue<'s>(Mutex<Vec<Job<'s>>>);
impl<'s> Queue<'s> {
    fn drain(&self) {
        loop {
            let job = {
                let mut q = self.0.lock().unwrap();
                if q.is_empty() {
                    break;
                }
                let k = if sim::is_task() {
                    sim::choose(q.len() as u64) as usize
                } else {
                    0
                };
                let last = q.len() - 1;
                q.swap(k, last);
                q.pop().unwrap()
            };
            job();
        }
    }
}
pub struct Scope<'scope> {
    q: Queue<'scope>,
}
pub struct ScopeFifo<'scope> {
    q: Queue<'scope>,
}
macro_rules! scope_impl {
    ($t:ident, $spawn:ident, $scope:ident, $inplace:ident) => {
        impl<'scope> $t<'scope> {
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$t<'scope>) + Send + 'scope,
            {
                let p = self as *const _ as usize;
                self.q
                    .0
                    .lock()
                    .unwrap()
                    .push(Box::new(move || body(unsafe { &*(p as *const $t<'scope>) })));
            }
            pub fn spawn_broadcast<B>(&self, body: B)
            where
                B: Fn(&$t<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let body = std::sync::Arc::new(body);
                for i in 0..current_num_threads() {
                    let body = body.clone();
                    self.$spawn(move |s| {
                        body(
                            s,
                            BroadcastContext {
                                index: i,
                                n: current_num_threads(),
                                _m: PhantomData,
                            },
                        )
                    });
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$t<'scope>) -> R + Send,
            R: Send,
        {
            let s = $t {
                q: Queue(Mutex::new(vec![])),
            };
            let r = op(&s);
            s.q.drain();
            r
        }
        pub fn $inplace<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$t<'scope>) -> R,
        {
            let s = $t {
                q: Queue(Mutex::new(vec![])),
            };
            let r = op(&s);
            s.q.drain();
            r
        }
    };
}
scope_impl!(Scope, spawn, scope, in_place_scope);
scope_impl!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n)
        .map(|index| {
            op(BroadcastContext {
                index,
                n,
                _m: PhantomData,
            })
        })
        .collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    sim::yield_point("yield_now");
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "thread pool")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder;
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Debug, Default)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    _p: (),
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self { _p: () }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn build_scoped<W, F, R>(self, _w: W, f: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(f(&ThreadPool))
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}
