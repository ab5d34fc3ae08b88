//! Degree bounds.
use super::apc::Opts;
use super::subject;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::*;
use crate::vm::mach::*;
use powdr_autoprecompiles::DegreeBound;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P16",
    run,
    quick_runs: 9000,
    warm: 2,
    thorough_runs: 1_500_000,
    quick_cap_s: 60,
    rule: "a run builds one precompile under a drawn degree bound; distinct by (instructions, block shape, learned constraints, bound)",
    real: "powdr-autoprecompiles::build and everything below it (symbolic machine generation, optimizer, rule-based optimizer, memory / range-constraint / bus optimizers, empirical and optimistic constraints), powdr-constraint-solver, powdr-openvm-bus-interaction-handler, powdr-number; the OpenVM AIR constraint text (one block in a dozen; the others use instruction AIRs drawn at random); rayon's parallel iterators",
    stub: "the zkVM (reference interpreter of 13 instruction AIRs, and reference semantics of randomly drawn instruction AIRs, registers, memory, clock, program), the proving system (a row verifier: constraints, range and lookup buses, net effect on the stateful buses), rayon's thread pool, OS randomness, clock",
    assumptions: &["degree of an expression is that of its polynomial form as written (sum: max, product: sum)"],
};

pub fn run(cx: &Cx) -> Res {
    let risc = Opts { max_len: if cx.thorough { 12 } else { 6 }, superblocks: true, learn: true, execs: 2 };
    let syn = Opts { max_len: if cx.thorough { 6 } else { 4 }, superblocks: true, learn: true, execs: 2 };
    let Some(c) = subject::draw(12, &risc, &syn, if cx.thorough { 8 } else { 6 }) else { return Ok(Outcome::default()) };
    let bound = pick(&[BOUND, DegreeBound { identities: 4, bus_interactions: 2 }, DegreeBound { identities: 5, bus_interactions: 3 }, DegreeBound { identities: 3, bus_interactions: 3 }]);
    let env = plain_env(sim::choose(1 << 16));
    let apc = match under(env, || c.build(bound, false)) {
        Ok(Ok(a)) => a,
        _ => return Ok(Outcome::default()), // not this property
    };
    let Ok(m) = Mach::new(&apc.machine) else { return Ok(Outcome::default()) };
    for (i, e) in m.cons.iter().enumerate() {
        ensure!(e.degree() <= bound.identities, "constraint-degree", "constraint {i} has degree {} > {} for {}", e.degree(), bound.identities, c.show());
    }
    for (i, b) in m.bus.iter().enumerate() {
        for (k, e) in b.args.iter().chain([&b.mult]).enumerate() {
            ensure!(e.degree() <= bound.bus_interactions, "bus-degree", "field {k} of interaction {i} on bus {} has degree {} > {} for {}", b.id, e.degree(), bound.bus_interactions, c.show());
        }
    }
    Ok(Outcome { nontrivial: m.cons.len() > 1, signature: hash(&(c.shape(), bound.identities, bound.bus_interactions)), sample: c.show() })
}
