use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::tiny::*;
use crate::vm::walk;
use powdr_autoprecompiles::execution_profile::execution_profile;
use rayon_core::sim;
use std::collections::HashMap;

pub static PROP: Prop = Prop {
    id: "P10",
    run,
    quick_runs: 120_000,
    warm: 40,
    thorough_runs: 400_000,
    quick_cap_s: 60,
    rule: "runs in which at least two simulated threads profiled or logged while interleaved; counted once per (hash of the profiles, schedule)",
    real: "autoprecompiles execution_profile::execution_profile; tracing and tracing-subscriber's registry",
    stub: "the executing zkVM (emits the same log events the real executor emits, mixed with others), operating-system threads (the simulator's scheduler decides who runs at every event)",
    assumptions: &["the executor emits its events on the thread that asked for the profile, as with the thread-local subscriber the code installs"],
};

/// One of very many steps: nothing else is logged and nobody else runs.
const BULK: u64 = 100;

/// What the executing machine and its surroundings log.
fn emit(pc: u64, noise: u64) {
    if noise == BULK {
        return tracing::trace!(pc = pc, "executing");
    }
    match noise {
        0 => {}
        1 => tracing::trace!(pc_index = pc + 1, "other field"),
        2 => tracing::info!("pc = {pc}"),
        3 => tracing::debug!(pc = ?pc, "as debug"),
        4 => tracing::trace!(pc = "text", "as text"),
        5 => tracing::warn!(clk = pc, x = 3u64, "two fields"),
        6 => tracing::trace!(target: "elsewhere", "no fields"),
        7 => tracing::trace!(from_pc = pc ^ 1, next_pc = 5u64, pcs = 3u64, PC = 8u64, "other addresses"),
        8 => tracing::error!(pc = -5i64, "not an address"),
        _ => {
            let s = tracing::info_span!("s", pc = 77u64);
            let _e = s.enter();
            tracing::trace!(opcode = 5u64);
        }
    }
    match noise % 3 {
        0 => tracing::trace!(pc = pc, "executing"),
        1 => tracing::trace!(opcode = 9u64, pc = pc),
        _ => tracing::debug!(pc, a = 1u64, b = "x"),
    }
    sim::yield_point("step");
}

fn run(cx: &Cx) -> Res {
    let n = tail(1, 3, 8);
    let max = if cx.thorough { 60 } else { 20 };
    let jobs: Vec<(walk::World, Vec<(u64, u64)>, bool, bool)> = (0..n)
        .map(|_| {
            let w = walk::program(10, KINDS, &[0, 0x200, 0x203, 1 << 33, (1 << 33) + 2, u64::MAX - 0x1000]);
            let pcs = w.pcs(&w.walk(if chance(1, 100) { 600 } else { max }));
            let mut ev: Vec<(u64, u64)> = pcs.iter().map(|p| (*p, if chance(1, 3) { sim::choose(10) } else { 0 })).collect();
            if chance(1, 1500) {
                let loops = 66_000 + below(8_000);
                let hot = pick(&pcs);
                ev.extend((0..loops).map(|i| (if i % 64 == 5 { pick(&pcs) } else { hot }, BULK)));
                sim::count("probe.very_long_execution");
            }
            (w, ev, chance(1, 6), chance(1, 5))
        })
        .collect();
    let env = draw_env();
    let jr = &jobs;
    let out = under(env, move || {
        let hs: Vec<_> = jr
            .iter()
            .enumerate()
            .map(|(k, (w, ev, twice, fails))| {
                let f = move || {
                    let go = || execution_profile::<TinyVm>(&w.prog, || ev.iter().for_each(|(p, x)| emit(*p, *x)));
                    if *fails {
                        // an execution that dies half-way leaves nothing behind
                        sim::count("fault.execution_dies");
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            execution_profile::<TinyVm>(&w.prog, || {
                                ev.iter().take(ev.len() / 2).for_each(|(p, x)| emit(*p, *x));
                                std::panic::resume_unwind(Box::new("execution dies"));
                            })
                        }));
                        assert!(r.is_err(), "harness: the execution did not die");
                    }
                    let a = go();
                    // events outside of a profiled execution belong to nobody
                    emit(1 << 40, 0);
                    let b = twice.then(|| {
                        // a profile taken while another one is being taken
                        let mut inner = None;
                        let outer = execution_profile::<TinyVm>(&w.prog, || {
                            emit(w.prog.base, 0);
                            inner = Some(go());
                            emit(w.prog.base + 4, 0);
                        });
                        (outer, inner.unwrap())
                    });
                    (a, b)
                };
                unsafe { sim::spawn_unchecked(k + 1, f) }
            })
            .collect();
        // somebody else logs meanwhile
        for _ in 0..4 {
            emit(1 << 41, 0);
        }
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Vec<_>>()
    });
    let out = match out {
        Ok(o) => o,
        Err(m) => return violation("panic-profile", m),
    };
    for ((w, ev, _, _), o) in jobs.iter().zip(out) {
        let Ok((a, b)) = o else { return violation("panic-profile", LAST_PANIC.lock().unwrap().clone()) };
        let want: Vec<u64> = ev.iter().map(|e| e.0).collect();
        let mut counts: HashMap<u64, u32> = HashMap::new();
        want.iter().for_each(|p| *counts.entry(*p).or_default() += 1);
        let mut all = vec![("profile", a, want.clone(), counts.clone())];
        if let Some((outer, inner)) = b {
            sim::count("probe.nested_profile");
            let ow = vec![w.prog.base, w.prog.base + 4];
            all.push(("enclosing profile", outer, ow.clone(), ow.iter().map(|p| (*p, 1)).collect()));
            all.push(("enclosed profile", inner, want, counts));
        }
        for (what, g, l, c) in all {
            ensure!(g.pc_list == l, "wrong-list", "{what}: executed {l:x?}, recorded {:x?} ({env:?})", g.pc_list);
            ensure!(g.pc_count == c, "wrong-count", "{what}: counts {:x?}, expected {c:x?}", g.pc_count);
        }
        sim::event("profile", hash(&ev));
    }
    Ok(Outcome { nontrivial: n > 1, signature: sim::log_hash(), sample: format!("{n} threads, {} events, {env:?}", jobs.iter().map(|j| j.1.len()).sum::<usize>()) })
}
