//! Building a precompile is a function of its inputs.
use super::apc::Opts;
use super::subject;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P01",
    run,
    quick_runs: 3500,
    warm: 2,
    thorough_runs: 400_000,
    quick_cap_s: 70,
    rule: "a run builds the same precompile in two or three environments (pool size, preemption, hash keys, clock, other builds before it or at the same time) and compares the serialized results; distinct by (instructions, block shape, learned constraints)",
    real: "powdr-autoprecompiles::build and everything below it (symbolic machine generation, optimizer, rule-based optimizer, memory / range-constraint / bus optimizers, empirical and optimistic constraints), powdr-constraint-solver, powdr-openvm-bus-interaction-handler, powdr-number; the OpenVM AIR constraint text (one block in a dozen; the others use instruction AIRs drawn at random); rayon's parallel iterators",
    stub: "the zkVM (reference interpreter of 13 instruction AIRs, and reference semantics of randomly drawn instruction AIRs, registers, memory, clock, program), the proving system (a row verifier: constraints, range and lookup buses, net effect on the stateful buses), rayon's thread pool, OS randomness, clock",
    assumptions: &["the environment of a build is: hash keys, clock, number and interleaving of pool threads, allocator preemption, log and metrics consumers, other builds of the same process"],
};

pub fn run(cx: &Cx) -> Res {
    let risc = Opts { max_len: if cx.thorough { 10 } else { 5 }, superblocks: true, learn: true, execs: 3 };
    let syn = Opts { max_len: if cx.thorough { 5 } else { 4 }, superblocks: true, learn: true, execs: 3 };
    let Some(c) = subject::draw(8, &risc, &syn, 6) else { return Ok(Outcome::default()) };
    let n = if chance(1, 3) { 3 } else { 2 };
    // Another build of the same process: before this one, or at the same time on the same pool.
    let other = if chance(1, 2) { subject::draw(8, &risc, &syn, 6) } else { None };
    let mut first: Option<String> = None;
    for k in 0..n {
        let mut env = draw_env();
        if other.is_some() && k > 0 {
            env.workers = env.workers.max(2);
            env.alloc_quantum = env.alloc_quantum.max(7);
        }
        let build = || c.build(crate::vm::adapter::BOUND, true).map(|a| a.json);
        let s = match &other {
            Some(o) if k > 0 => under(env, || {
                let busy = || {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.build(crate::vm::adapter::BOUND, false).is_ok()));
                };
                // The way precompiles are restricted is a setting of the process.
                if o.restricted() == c.restricted() && chance(3, 4) {
                    sim::count("fault.concurrent_build");
                    rayon::join(build, busy).0
                } else {
                    sim::count("fault.earlier_build");
                    busy();
                    build()
                }
            }),
            _ => under(env, build),
        };
        let s = match s {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => format!("error {e}"),
            Err(m) => format!("panic {m}"),
        };
        match &first {
            None => first = Some(s),
            Some(f) => {
                if *f != s {
                    let at = f.bytes().zip(s.bytes()).position(|(a, b)| a != b).unwrap_or(f.len().min(s.len()));
                    let cut = |x: &str| x.get(at.saturating_sub(60)..(at + 60).min(x.len())).unwrap_or("").to_string();
                    ensure!(false, "differs", "environment {k} gives another precompile for {}: ...{}... vs ...{}...", c.show(), cut(f), cut(&s));
                }
            }
        }
    }
    Ok(Outcome { nontrivial: c.size() > 1, signature: c.shape(), sample: c.show() })
}
