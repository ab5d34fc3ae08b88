//! The optimizer preserves what any machine can do, not only the instruction AIRs of the simulated zkVM.
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adv::*;
use crate::vm::mach::*;
use crate::vm::synth::*;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::optimizer::optimize;
use powdr_autoprecompiles::{ColumnAllocator, DegreeBound};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::bus_map::default_openvm_bus_map;
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P14",
    run,
    quick_runs: 15000,
    warm: 2,
    thorough_runs: 400_000,
    quick_cap_s: 60,
    rule: "a run draws one machine, optimizes it, and replays executions and forged rows on both; distinct by (gadgets, size)",
    real: "powdr-autoprecompiles::optimizer::optimize and everything below it (constraint optimizer, memory, range-constraint and low-degree optimizers), powdr-constraint-solver (solver, inliner, rule-based optimizer), powdr-openvm-bus-interaction-handler, powdr-number",
    stub: "the machine (grown from gadgets with a reference semantics), the rest of the zkVM, the proving system (row verifier), OS randomness (hash keys)",
    assumptions: &["machines follow the protocol of the simulated zkVM's stateful buses and keep memory words in bytes"],
};

pub fn run(cx: &Cx) -> Res {
    let s = Sys::draw(if cx.thorough { 4 } else { 3 }, if cx.thorough { 7 } else { 5 });
    let bound = pick(&[DegreeBound { identities: 3, bus_interactions: 2 }, DegreeBound { identities: 4, bus_interactions: 2 }, DegreeBound { identities: 5, bus_interactions: 3 }]);
    let mut r = Rng(sim::choose(1 << 32));
    let machine = s.machine();
    let orig = Mach::new(&machine).unwrap();
    let mut rows = vec![];
    for _ in 0..60 {
        if rows.len() >= 8 {
            break;
        }
        let row = s.run(&mut Sampler(&mut r)).unwrap();
        let o = s.row_of(&orig, &row);
        if orig.check(&o).is_ok() {
            rows.push(row);
        }
    }
    if rows.is_empty() {
        return Ok(Outcome::default());
    }
    let show = || format!("{}", machine);
    // the judge itself, on the machine as drawn
    for row in &rows {
        let mut net = Net::new();
        orig.net(&s.row_of(&orig, row), &mut net);
        if let Judged::Bad(x) = s.judge(&orig, &net) {
            return violation("harness", format!("honest row judged: {x}\n{}", show()));
        }
    }
    if std::env::var("SYNTH_SELF").is_ok() {
        let adv = Adv::new(&orig);
        for _ in 0..400 {
            let b = rows[r.below(rows.len())].clone();
            let b = s.row_of(&orig, &b);
            if let Some(row) = sim::muted(|| adv.attempt(&b, &mut r)) {
                let mut net = Net::new();
                orig.net(&row, &mut net);
                sim::count("probe.self_forged");
                let bad = s.judge(&orig, &net);
                if net.iter().filter(|((b, _), m)| *b == EXEC && **m > crate::vm::P / 2).count() > 1 {
                    continue;
                }
                if let Judged::Bad(x) = bad {
                    return violation("harness", format!("drawn machine is not functional: {x} row {} \n{}", orig.show(&(0..orig.ids.len()).collect::<Vec<_>>(), &row), show()));
                }
            }
        }
        return Ok(Outcome::default());
    }
    let env = plain_env(sim::choose(1 << 16));
    // some clients optimize what was optimized already
    let rounds = if chance(1, 4) { 2 } else { 1 };
    let got = under(env, || {
        let mut x = (machine.clone(), ColumnAllocator::from_max_poly_id_of_machine(&machine));
        for i in 0..rounds {
            if i > 0 {
                sim::count("probe.optimized_again");
            }
            x = optimize::<F, _, _, OpenVmMemoryBusInteraction<F, _>>(
                x.0,
                OpenVmBusInteractionHandler::<F>::default(),
                bound,
                &default_openvm_bus_map(),
                x.1,
                &mut ExportOptions::default(),
            )
            .map_err(|e| format!("round {i}: {e:?}"))?;
        }
        Ok::<_, String>(x.0)
    });
    let opt = match got {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return violation("refused", format!("a machine with executions is refused: {e}\n{}", show())),
        Err(e) => return violation("panic", format!("optimizer panics on a machine with executions: {e}\n{}", show())),
    };
    let both = || format!("{}\n--- optimized to\n{}", show(), opt);
    let m = match Mach::new(&opt) {
        Ok(m) => m,
        Err(e) => return violation("malformed", format!("{e}\n{}", both())),
    };
    for e in &m.cons {
        ensure!(e.degree() <= bound.identities, "degree", "constraint of degree {} > {}\n{}", e.degree(), bound.identities, both());
    }
    let next = s.cols.len() as u64;
    let mut base = vec![];
    for row in &rows {
        let mut o = s.row_of(&m, row);
        for (i, id) in m.ids.iter().enumerate() {
            if *id >= next {
                ensure!(m.derived.iter().any(|(c, _)| *c == i), "underived", "new column {} has no way to be computed\n{}", m.names[i], both());
            }
        }
        m.derive(&mut o);
        if let Err(e) = m.check(&o) {
            return violation("incomplete", format!("execution is rejected: {e}\nrow {}\n{}", orig.show(&(0..orig.ids.len()).collect::<Vec<_>>(), &s.row_of(&orig, row)), both()));
        }
        let (mut a, mut b) = (Net::new(), Net::new());
        orig.net(&s.row_of(&orig, row), &mut a);
        m.net(&o, &mut b);
        ensure!(a == b, "effect", "execution has effect {} instead of {}\n{}", show_net(&b), show_net(&a), both());
        base.push(o);
    }
    let adv = Adv::new(&m);
    let mut judged = 0u64;
    for _ in 0..if cx.thorough { 600 } else { 150 } {
        let from = r.below(base.len());
        let got = sim::muted(|| adv.attempt(&base[from], &mut r));
        sim::count("fault.byzantine_cell");
        if let Some(row) = got {
            ensure!(m.check(&row).is_ok(), "harness", "attempt returned a rejected row");
            let mut net = Net::new();
            m.net(&row, &mut net);
            match s.judge(&orig, &net) {
                Judged::Good => {
                    sim::count("probe.forged_consistent");
                    judged += 1;
                    if r.below(8) == 0 && base.len() < 16 {
                        base.push(row);
                    }
                }
                Judged::Impossible => sim::count("probe.forged_impossible_input"),
                Judged::Bad(x) => return violation("forged", format!("accepted row {}: {x}\n{}", m.show(&(0..m.ids.len()).collect::<Vec<_>>(), &row), both())),
            }
        }
    }
    let mut g = s.names.clone();
    g.sort();
    g.dedup();
    Ok(Outcome { nontrivial: judged > 0, signature: hash(&(g, s.bus.len())), sample: format!("{} columns -> {}, gadgets {:?}", orig.ids.len(), m.ids.len(), s.names) })
}
