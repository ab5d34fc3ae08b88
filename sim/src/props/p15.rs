//! Padding rows are inert.
use super::apc::Opts;
use super::subject::{self, fill};
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::BOUND;
use crate::vm::adv::*;
use crate::vm::mach::*;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P15",
    run,
    quick_runs: 9000,
    warm: 2,
    thorough_runs: 1_500_000,
    quick_cap_s: 60,
    rule: "a run builds one precompile and checks its padding row and forged rows that claim to be padding; distinct by (instructions, block shape, learned constraints)",
    real: "powdr-autoprecompiles::build and everything below it (symbolic machine generation, optimizer, rule-based optimizer, memory / range-constraint / bus optimizers, empirical and optimistic constraints), powdr-constraint-solver, powdr-openvm-bus-interaction-handler, powdr-number; the OpenVM AIR constraint text (one block in a dozen; the others use instruction AIRs drawn at random); rayon's parallel iterators",
    stub: "the zkVM (reference interpreter of 13 instruction AIRs, and reference semantics of randomly drawn instruction AIRs, registers, memory, clock, program), the proving system (a row verifier: constraints, range and lookup buses, net effect on the stateful buses), rayon's thread pool, OS randomness, clock",
    assumptions: &["a padding row is a row whose selector columns are zero"],
};

pub fn run(cx: &Cx) -> Res {
    let risc = Opts { max_len: if cx.thorough { 10 } else { 5 }, superblocks: true, learn: true, execs: 2 };
    let syn = Opts { max_len: if cx.thorough { 5 } else { 4 }, superblocks: true, learn: true, execs: 3 };
    let Some(c) = subject::draw(12, &risc, &syn, 5) else { return Ok(Outcome::default()) };
    let seed = sim::choose(1 << 32);
    let env = plain_env(sim::choose(1 << 16));
    let apc = match under(env, || c.build(BOUND, false)) {
        Ok(Ok(a)) => a,
        _ => return Ok(Outcome::default()), // not this property
    };
    let Ok(m) = Mach::new(&apc.machine) else { return Ok(Outcome::default()) };
    let zero = vec![0u64; m.ids.len()];
    if let Err(x) = m.check(&zero) {
        return violation("padding-rejected", format!("the all-zero row is not accepted: {x}; block {}", c.show()));
    }
    let mut net = Net::new();
    m.net(&zero, &mut net);
    ensure!(net.is_empty(), "padding-effect", "the all-zero row has effect {}; block {}", show_net(&net), c.show());
    ensure!(m.bus.iter().all(|b| b.mult.eval(&zero) == 0), "padding-effect", "the all-zero row uses a lookup; block {}", c.show());
    // a prover that marks a row as padding cannot smuggle effects in
    let Some(v) = m.names.iter().position(|n| n == "is_valid") else {
        return violation("no-selector", format!("no validity selector; block {}", c.show()));
    };
    let adv = Adv::new(&m);
    let mut r = Rng(seed);
    let mut judged = 0;
    let mut bases = vec![zero.clone()];
    for e in 0..c.covered() {
        if let Ok(mut row) = fill(&apc, &m, &c.rows(e)) {
            row[v] = 0;
            bases.push(row);
        }
    }
    for k in 0..if cx.thorough { 600 } else { 150 } {
        let from = r.below(bases.len());
        let Some(row) = sim::muted(|| if k < bases.len() { m.check(&bases[k]).is_ok().then(|| bases[k].clone()) } else { adv.repair(&bases[from], v, &mut r) }) else { continue };
        if row[v] != 0 {
            continue;
        }
        judged += 1;
        for (i, b) in m.bus.iter().enumerate() {
            ensure!(
                b.mult.eval(&row) == 0,
                "padding-effect",
                "an accepted row that is not valid uses interaction {i} on bus {} with multiplicity {}: {} for {}",
                b.id,
                b.mult.eval(&row),
                m.show(&(0..m.ids.len()).collect::<Vec<_>>(), &row),
                c.show()
            );
        }
        sim::count("fault.forged_padding");
    }
    Ok(Outcome { nontrivial: judged > 0, signature: c.shape(), sample: format!("{} ({judged} padding rows judged)", c.show()) })
}
