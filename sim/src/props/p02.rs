//! Completeness: every execution of the block is accepted, with the same effect.
use super::apc::Opts;
use super::subject::{self, fill};
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::BOUND;
use crate::vm::mach::*;

pub static PROP: Prop = Prop {
    id: "P02",
    run,
    quick_runs: 10000,
    warm: 2,
    thorough_runs: 1_500_000,
    quick_cap_s: 75,
    rule: "a run builds one precompile and fills its row for at least one execution; distinct by (instructions, block shape, learned constraints, environment schedule)",
    real: "powdr-autoprecompiles::build and everything below it (symbolic machine generation, optimizer, rule-based optimizer, memory / range-constraint / bus optimizers, empirical and optimistic constraints), powdr-constraint-solver, powdr-openvm-bus-interaction-handler, powdr-number; the OpenVM AIR constraint text (one block in a dozen; the others use instruction AIRs drawn at random); rayon's parallel iterators",
    stub: "the zkVM (reference interpreter of 13 instruction AIRs, and reference semantics of randomly drawn instruction AIRs, registers, memory, clock, program), the proving system (a row verifier: constraints, range and lookup buses, net effect on the stateful buses), rayon's thread pool, OS randomness, clock",
    assumptions: &["the reference interpreter and its rows are right (each run checks its own rows against the original AIRs before judging anything)"],
};

pub fn run(cx: &Cx) -> Res {
    let risc = Opts { max_len: if cx.thorough { 14 } else { 8 }, superblocks: true, learn: true, execs: 4 };
    let syn = Opts { max_len: if cx.thorough { 6 } else { 4 }, superblocks: true, learn: true, execs: 8 };
    let Some(c) = subject::draw(12, &risc, &syn, if cx.thorough { 8 } else { 6 }) else { return Ok(Outcome::default()) };
    c.self_check();
    let env = draw_env();
    let apc = match under(env, || c.build(BOUND, false)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return violation("no-precompile", format!("{e} for {}", c.show())),
        Err(m) => return violation("panic-build", format!("{m} for {}", c.show())),
    };
    let m = match Mach::new(&apc.machine) {
        Ok(m) => m,
        Err(e) => return violation("unfillable", format!("{e} for {}", c.show())),
    };
    let program = c.program();
    for e in 0..c.covered() {
        let row = match fill(&apc, &m, &c.rows(e)) {
            Ok(r) => r,
            Err(x) => return violation("unfillable", format!("{x} for {}", c.show())),
        };
        if let Err(x) = m.check(&row) {
            return violation("rejected", format!("an execution of {} has no accepted row: {x}", c.show()));
        }
        for b in m.bus.iter().filter(|b| b.id == PC && b.mult.eval(&row) != 0) {
            let a: Vec<u64> = b.args.iter().map(|a| a.eval(&row)).collect();
            ensure!(program.contains(&a), "rejected", "program lookup {a:?} is not in {}", c.show());
        }
        let (mut got, want) = (Net::new(), c.effect(e));
        m.net(&row, &mut got);
        ensure!(got == want, "effect", "the row of an execution of {} has effect {} instead of {}", c.show(), show_net(&got), show_net(&want));
    }
    rayon_core::sim::count_n("probe.executions", c.covered() as u64);
    rayon_core::sim::count_n("probe.instructions", c.size() as u64);
    if c.learned() {
        rayon_core::sim::count("probe.learned");
    }
    if c.blocks() > 1 {
        rayon_core::sim::count("probe.superblocks");
    }
    rayon_core::sim::count_n("probe.columns_before", c.columns());
    rayon_core::sim::count_n("probe.columns_after", m.ids.len() as u64);
    Ok(Outcome { nontrivial: c.size() > 1, signature: c.shape(), sample: c.show() })
}
