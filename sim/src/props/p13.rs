//! Whatever the solver claims, at any point of any history of additions, queries and
//! forgetting, holds for every assignment that satisfies what it was told so far.
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adv::*;
use crate::vm::mach::*;
use crate::vm::synth::*;
use crate::vm::P;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::expression_conversion::{algebraic_to_grouped_expression, grouped_expression_to_algebraic};
use powdr_autoprecompiles::symbolic_machine::{symbolic_bus_interaction_to_bus_interaction, SymbolicMachine};
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, ConstraintSystem};
use powdr_constraint_solver::grouped_expression::{GroupedExpression, RangeConstraintProvider};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use rayon_core::sim;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

pub static PROP: Prop = Prop {
    id: "P13",
    run,
    quick_runs: 40_000,
    warm: 2,
    thorough_runs: 3_000_000,
    quick_cap_s: 60,
    rule: "a run draws one system and one history of solver operations; distinct by (gadgets, sequence of operations)",
    real: "powdr-constraint-solver (incremental solver, boolean extraction, linearization, exhaustive search, ranges), powdr-openvm-bus-interaction-handler, powdr-autoprecompiles expression conversion, powdr-number",
    stub: "the client of the solver (seeded histories), the system (grown from gadgets), OS randomness (hash keys)",
    assumptions: &["words received from memory consist of bytes (the bus handler's stated assumption)"],
};
type G = GroupedExpression<F, AlgebraicReference>;

/// The part of the system the solver knows, as a machine.
struct Part {
    m: Mach,
    extra: Vec<(usize, RangeConstraint<F>)>,
}
impl Part {
    fn ok(&self, s: &Sys, row: &[u64]) -> bool {
        let r = s.row_of(&self.m, row);
        self.m.check(&r).is_ok()
            && self.m.bus.iter().all(|b| b.id != MEM || b.mult.eval(&r) != P - 1 || b.args[2..6].iter().all(|a| a.eval(&r) < 256))
            && self.extra.iter().all(|(c, rc)| rc.allows_value(F::from(row[*c])))
    }
}

pub fn run(cx: &Cx) -> Res {
    let s = Sys::draw(if cx.thorough { 3 } else { 2 }, if cx.thorough { 6 } else { 4 });
    let mut r = Rng(sim::choose(1 << 32));
    let machine = s.machine();
    let orig = Mach::new(&machine).unwrap();
    let mut rows: Vec<Vec<u64>> = vec![];
    for _ in 0..60 {
        if rows.len() >= 8 {
            break;
        }
        let row = s.run(&mut Sampler(&mut r)).unwrap();
        if orig.check(&s.row_of(&orig, &row)).is_ok() {
            rows.push(row);
        }
    }
    if rows.is_empty() {
        return Ok(Outcome::default());
    }
    let env = plain_env(sim::choose(1 << 16));
    let log = Mutex::new(vec![]);
    let show = machine.to_string();
    match under(env, || history(cx, &s, machine, rows, r, Trace(&log))) {
        Ok(x) => x,
        Err(e) => violation("panic", format!("solver panics on a satisfiable system: {e}\nhistory:\n{}\nsystem:\n{show}", Trace(&log).join())),
    }
}

struct Trace<'a>(&'a Mutex<Vec<String>>);
impl Trace<'_> {
    fn push(&self, s: String) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push(s)
    }
    fn join(&self) -> String {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).join("\n")
    }
}
fn history(cx: &Cx, s: &Sys, machine: SymbolicMachine<F>, honest: Vec<Vec<u64>>, mut r: Rng, trace: Trace) -> Res {
    let ids: BTreeMap<u64, usize> = (0..s.cols.len()).map(|i| (i as u64, i)).collect();
    let var = |i: usize| AlgebraicReference { name: std::sync::Arc::new(s.cols[i].clone()), id: i as u64 };
    let ex = |e: &E| Ex::build(e, &ids).unwrap();
    let gex = |g: &G| Ex::build(&grouped_expression_to_algebraic(g.clone()), &ids).unwrap();
    let ge = |e: &E| -> G { algebraic_to_grouped_expression(e) };
    // what is still to be told, in the order in which it will be
    let mut items: Vec<usize> = (0..machine.constraints.len() + machine.bus_interactions.len()).collect();
    if !chance(1, 5) {
        shuffle(&mut items);
    }
    let mut told: Vec<usize> = vec![];
    let apply = !chance(1, 6);
    let mut subs: Vec<(AlgebraicReference, G)> = vec![];
    let mut assigned: BTreeSet<u64> = BTreeSet::new();
    let mut part = Part { m: Mach::new(&SymbolicMachine { constraints: vec![], bus_interactions: vec![], derived_columns: vec![] }).unwrap(), extra: vec![] };
    let mut pool: Vec<Vec<u64>> = vec![];
    let mut ops: Vec<u8> = vec![];
    let mut solver = new_solver(ConstraintSystem::<F, AlgebraicReference>::default(), OpenVmBusInteractionHandler::<F>::default());
    let with = |subs: &[(AlgebraicReference, G)], mut g: G| -> G {
        for (v, e) in subs {
            g.substitute_by_unknown(v, e);
        }
        g
    };
    let steps = if cx.thorough { range(6, 40) } else { range(4, 24) };
    let mut claims = 0u64;
    let mut end = 0;
    while end < 3 {
        if ops.len() >= steps && items.is_empty() {
            end += 1;
        }
        let op = if ops.len() >= steps && !items.is_empty() {
            0
        } else if end > 0 {
            [1, 2, 3][end - 1]
        } else {
            pick(&[0u8, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5])
        };
        ops.push(op);
        let ctx = |trace: &Trace, what: String| format!("{what}\nhistory:\n{}\nsystem:\n{machine}", trace.join());
        match op {
            0 => {
                let k = if ops.len() >= steps { items.len() } else { range(1, 5).min(items.len()) };
                let batch: Vec<usize> = items.drain(..k).collect();
                let mut again: Vec<usize> = batch.clone();
                if !told.is_empty() && chance(1, 8) {
                    again.push(told[r.below(told.len())]);
                }
                let nc = machine.constraints.len();
                let cs: Vec<_> = again.iter().filter(|i| **i < nc).map(|i| ge(&machine.constraints[*i].expr)).map(|g| if apply { with(&subs, g) } else { g }).collect();
                let bs: Vec<_> = again
                    .iter()
                    .filter(|i| **i >= nc)
                    .map(|i| symbolic_bus_interaction_to_bus_interaction(&machine.bus_interactions[*i - nc]))
                    .map(|b| if apply { b.fields().map(|f| with(&subs, f.clone())).collect() } else { b })
                    .collect();
                trace.push(format!("add {} | {}", cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", "), bs.iter().map(|b| format!("{b}")).collect::<Vec<_>>().join(", ")));
                if !cs.is_empty() {
                    solver.add_algebraic_constraints(cs.into_iter().map(AlgebraicConstraint::assert_zero));
                }
                if !bs.is_empty() {
                    solver.add_bus_interactions(bs);
                }
                told.extend(batch);
                part.m = Mach::new(&SymbolicMachine {
                    constraints: told.iter().filter(|i| **i < nc).map(|i| machine.constraints[*i].clone()).collect(),
                    bus_interactions: told.iter().filter(|i| **i >= nc).map(|i| machine.bus_interactions[*i - nc].clone()).collect(),
                    derived_columns: vec![],
                })
                .unwrap();
                pool.retain(|x| part.ok(s, x));
            }
            1 => {
                trace.push("solve".into());
                let got = match solver.solve() {
                    Ok(x) => x,
                    Err(e) => return violation("unsat", ctx(&trace, format!("a satisfiable system is reported as unsatisfiable: {e:?}"))),
                };
                let vars: Vec<u64> = got.iter().map(|x| x.0.id).collect();
                for (v, g) in got {
                    trace.push(format!("  -> {v} = {g}"));
                    let e = gex(&g);
                    for x in honest_ok(&honest, &part, s).chain(pool.iter()) {
                        let (have, want) = (x[v.id as usize], e.eval(x));
                        ensure!(have == want, "assignment", "{}", ctx(&trace, format!("solver claims {v} = {g}, but {v} = {have} and {g} = {want} in {}", show(s, x))));
                        claims += 1;
                    }
                    if apply {
                        ensure!(!part.extra.is_empty() || !assigned.contains(&v.id), "repeated", "{}", ctx(&trace, format!("{v} is assigned again")));
                        for (_, h) in &mut subs {
                            h.substitute_by_unknown(&v, &g);
                        }
                    }
                    subs.push((v, g));
                }
                assigned.extend(vars);
            }
            2 => {
                // ranges
                for _ in 0..range(1, 4) {
                    let e = expr(s, &machine, &mut r);
                    let x = ex(&e);
                    let g = with(&subs, ge(&e));
                    let rc = solver.range_constraint_for_expression(&g);
                    let c = solver.try_to_equivalent_constant(&g);
                    trace.push(format!("range of {g}: {rc} constant {c:?}"));
                    for w in honest_ok(&honest, &part, s).chain(pool.iter()) {
                        let v = x.eval(w);
                        ensure!(rc.allows_value(F::from(v)), "range", "{}", ctx(&trace, format!("{e} = {v} is outside of {rc} in {}", show(s, w))));
                        if let Some(c) = c {
                            ensure!(num(&c) == v, "constant", "{}", ctx(&trace, format!("{e} = {v} instead of {c} in {}", show(s, w))));
                        }
                        claims += !rc.is_unconstrained() as u64;
                    }
                }
                for i in 0..s.cols.len() {
                    let rc = solver.get(&var(i));
                    if rc.is_unconstrained() {
                        continue;
                    }
                    for w in honest_ok(&honest, &part, s).chain(pool.iter()) {
                        ensure!(rc.allows_value(F::from(w[i])), "range", "{}", ctx(&trace, format!("{} = {} is outside of {rc} in {}", s.cols[i], w[i], show(s, w))));
                        claims += 1;
                    }
                }
            }
            3 => {
                // columns the solver knows to have few values
                let small: Vec<usize> = (0..s.cols.len()).filter(|i| { let (lo, hi) = solver.get(&var(*i)).range(); num(&(hi - lo)) < 20 }).collect();
                for _ in 0..range(1, 6) {
                    let pinned = !small.is_empty() && r.below(2) == 0;
                    let few = |r: &mut Rng| {
                        let mut e = n(r.below(3) as u64);
                        for _ in 0..1 + r.below(3) {
                            let i = small[r.below(small.len())];
                            e = e + AlgebraicExpression::Reference(var(i)) * n(r.pick(&[1, 1, 1, 2, 3, 4, 256, P - 1, P - 2]));
                        }
                        e
                    };
                    let a = if pinned { few(&mut r) } else { expr(s, &machine, &mut r) };
                    let b = match r.below(4) {
                        _ if pinned => {
                            // equal in one of the assignments
                            let all: Vec<&Vec<u64>> = honest_ok(&honest, &part, s).chain(pool.iter()).collect();
                            let w = all[r.below(all.len())];
                            let b = if r.below(2) == 0 { n(0) } else { few(&mut r) };
                            let gap = (ex(&a).eval(w) + P - ex(&b).eval(w)) % P;
                            b + n(gap)
                        }
                        0 => a.clone() + n(r.pick(&[1, 4, 256, P - 1])),
                        1 => a.clone() + s.vals[r.below(s.vals.len())].e.clone() - n(r.pick(&[0, 1, 2])),
                        2 => n(r.pick(&[0, 1, 2, 255, 256, P - 1])),
                        _ => expr(s, &machine, &mut r),
                    };
                    let d = solver.are_expressions_known_to_be_different(&with(&subs, ge(&a)), &with(&subs, ge(&b)));
                    trace.push(format!("different {a} ; {b}: {d}"));
                    if d {
                        let (xa, xb) = (ex(&a), ex(&b));
                        for w in honest_ok(&honest, &part, s).chain(pool.iter()) {
                            let v = xa.eval(w);
                            ensure!(v != xb.eval(w), "different", "{}", ctx(&trace, format!("{a} and {b} are both {v} in {}", show(s, w))));
                            claims += 1;
                        }
                    }
                }
            }
            4 => {
                // a promise about a column that holds for the executions seen
                let c = r.below(s.cols.len());
                let max = honest.iter().map(|x| x[c]).max().unwrap();
                let min = honest.iter().map(|x| x[c]).min().unwrap();
                // some only for one of them
                let one = honest_ok(&honest, &part, s).nth(0).map(|x| x[c]).unwrap();
                let rc = match r.below(5) {
                    3 => RangeConstraint::from_range(F::from(one) - F::from(r.below(22) as u64), F::from(one) + F::from(r.below(4) as u64)),
                    4 => RangeConstraint::from_range(F::from(one) - F::from(r.below(4) as u64), F::from(one) + F::from(r.below(22) as u64)),
                    0 => RangeConstraint::from_mask((max + 1).next_power_of_two() as u32 - 1),
                    1 => RangeConstraint::from_range(F::from(min), F::from(max)),
                    _ => RangeConstraint::from_range(F::from(0), F::from(max)),
                };
                trace.push(format!("promise {} in {rc}", s.cols[c]));
                // the client applies assignments: only promises about what is left
                if !subs.iter().any(|(v, _)| v.id == c as u64) {
                    solver.add_range_constraint(&var(c), rc);
                    part.extra.push((c, rc));
                    pool.retain(|x| part.ok(s, x));
                }
            }
            _ => {
                if !chance(1, 3) {
                    continue;
                }
                // forget some columns; pending assignments have to be collected first
                match solver.solve() {
                    Err(e) => return violation("unsat", ctx(&trace, format!("a satisfiable system is reported as unsatisfiable: {e:?}"))),
                    Ok(got) => {
                        let vars: Vec<u64> = got.iter().map(|x| x.0.id).collect();
                        for (v, g) in got {
                            let e = gex(&g);
                            for x in honest_ok(&honest, &part, s).chain(pool.iter()) {
                                ensure!(x[v.id as usize] == e.eval(x), "assignment", "{}", ctx(&trace, format!("solver claims {v} = {g} but not in {}", show(s, x))));
                            }
                            if apply {
                                ensure!(!part.extra.is_empty() || !assigned.contains(&v.id), "repeated", "{}", ctx(&trace, format!("{v} is assigned again")));
                                for (_, h) in &mut subs {
                                    h.substitute_by_unknown(&v, &g);
                                }
                            }
                            trace.push(format!("  -> {v} = {g}"));
                            subs.push((v, g));
                        }
                        assigned.extend(vars);
                    }
                }
                let keep: HashSet<AlgebraicReference> = (0..s.cols.len()).filter(|_| r.below(4) > 0).map(var).collect();
                trace.push(format!("retain {} of {} columns", keep.len(), s.cols.len()));
                solver.retain_variables(&keep);
            }
        }
        // other assignments that satisfy what the solver was told
        let base: Vec<&Vec<u64>> = honest.iter().chain(pool.iter()).collect();
        let mut fresh = vec![];
        if !part.m.ids.is_empty() {
            let adv = Adv::new(&part.m);
            for _ in 0..if cx.thorough { 40 } else { 12 } {
                let from = base[r.below(base.len())];
                sim::count("fault.byzantine_cell");
                let b = s.row_of(&part.m, from);
                if let Some(x) = sim::muted(|| adv.attempt(&b, &mut r)) {
                    let mut full = from.clone();
                    for (i, id) in part.m.ids.iter().enumerate() {
                        full[*id as usize] = x[i];
                    }
                    if part.ok(s, &full) {
                        sim::count("probe.other_assignment");
                        fresh.push(full);
                    }
                }
            }
        }
        for x in fresh {
            if pool.len() < 24 {
                pool.push(x);
            } else {
                let k = r.below(pool.len());
                pool[k] = x;
            }
        }
    }
    sim::count_n("probe.claims", claims);
    let mut g = s.names.clone();
    g.sort();
    g.dedup();
    Ok(Outcome { nontrivial: claims > 0, signature: hash(&(g, ops.clone())), sample: format!("{} columns, {} operations, {} claims checked, {} assignments", s.cols.len(), ops.len(), claims, subs.len()) })
}
fn honest_ok<'a>(honest: &'a [Vec<u64>], p: &'a Part, s: &'a Sys) -> impl Iterator<Item = &'a Vec<u64>> {
    honest.iter().filter(move |x| p.ok(s, x))
}
fn show(s: &Sys, row: &[u64]) -> String {
    s.cols.iter().zip(row).map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join(" ")
}
fn expr(s: &Sys, m: &SymbolicMachine<F>, r: &mut Rng) -> E {
    let col = |i: usize| AlgebraicExpression::Reference(AlgebraicReference { name: std::sync::Arc::new(s.cols[i].clone()), id: i as u64 });
    let k = |r: &mut Rng| n(r.pick(&[1, 2, 3, 4, 255, 256, 65536, P - 1, P - 256]));
    match r.below(8) {
        0 => s.vals[r.below(s.vals.len())].e.clone(),
        1 => {
            let b = &m.bus_interactions[r.below(m.bus_interactions.len())];
            b.args[r.below(b.args.len())].clone()
        }
        2 => col(r.below(s.cols.len())) * k(r) + col(r.below(s.cols.len())) * k(r) + k(r),
        3 => s.vals[r.below(s.vals.len())].e.clone() * s.vals[r.below(s.vals.len())].e.clone(),
        4 => s.vals[r.below(s.vals.len())].e.clone() * k(r) + s.vals[r.below(s.vals.len())].e.clone() * k(r),
        5 if !m.constraints.is_empty() => m.constraints[r.below(m.constraints.len())].expr.clone(),
        6 => s.vals[r.below(s.vals.len())].e.clone() - s.vals[r.below(s.vals.len())].e.clone(),
        _ => col(r.below(s.cols.len())),
    }
}
