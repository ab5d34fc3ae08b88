//! Draw helpers: every value comes from the choice tape, 0 is the plain choice.
use rayon_core::sim;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn below(n: usize) -> usize {
    sim::choose(n as u64) as usize
}
/// lo..=hi
pub fn range(lo: usize, hi: usize) -> usize {
    lo + below(hi - lo + 1)
}
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[below(v.len())].clone()
}
pub fn chance(num: u64, den: u64) -> bool {
    sim::chance(num, den)
}
pub fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // 0 keeps the element in place
        let j = i - below(i + 1);
        v.swap(i, j);
    }
}
/// `lo..=usual`, now and then up to `far`.
pub fn tail(lo: usize, usual: usize, far: usize) -> usize {
    if chance(1, 24) {
        range(lo, far)
    } else {
        range(lo, usual)
    }
}
pub fn hash(x: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}
#[allow(dead_code)]
fn _unused(_: DefaultHasher) {}

/// The environment of one simulated execution of the code under test.
#[derive(Debug, Clone, Copy)]
pub struct Env {
    pub workers: usize,
    pub switch_den: u64,
    pub hash_seed: u64,
    pub alloc_quantum: u32,
    pub clock: u32,
}
/// Draws pool size, preemption rate, hash seed, clock behaviour.
pub fn draw_env() -> Env {
    Env {
        workers: pick(&[1usize, 2, 3, 4, 8, 16]),
        switch_den: pick(&[4u64, 1, 2, 8, 32]),
        hash_seed: sim::choose(1 << 32),
        alloc_quantum: pick(&[0u32, 7, 31, 129, 1021]),
        clock: below(2) as u32,
    }
}
pub fn plain_env(hash_seed: u64) -> Env {
    Env { workers: 1, switch_den: 1 << 20, hash_seed, alloc_quantum: 0, clock: 0 }
}
/// Runs code under test inside `env` on a fresh simulated thread (std draws the
/// keys of its hash tables once per thread, so they follow `hash_seed`).
pub fn under<R: Send>(env: Env, f: impl FnOnce() -> R + Send) -> Result<R, String> {
    use std::sync::atomic::Ordering::SeqCst;
    sim::configure(env.workers, env.switch_den);
    sim::set_hash_seed(env.hash_seed);
    crate::seams::CLOCK_MODE.store(env.clock, SeqCst);
    crate::seams::ALLOC_QUANTUM.store(env.alloc_quantum, SeqCst);
    let h = unsafe { sim::spawn_unchecked(0, f) };
    let r = h.join();
    crate::seams::ALLOC_QUANTUM.store(0, SeqCst);
    crate::seams::CLOCK_MODE.store(0, SeqCst);
    r.map_err(|_| crate::driver::LAST_PANIC.lock().unwrap().clone())
}
