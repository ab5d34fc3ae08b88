use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::tiny::*;
use powdr_autoprecompiles::adapter::AdapterApc;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::execution::OptimisticConstraints;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine};
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceTrait};
use powdr_autoprecompiles::{Apc, Substitution};
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_number::BabyBearField as F;
use rayon_core::sim;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "P09",
    run,
    quick_runs: 100_000,
    warm: 0,
    thorough_runs: 2_000_000,
    quick_cap_s: 60,
    rule: "runs with at least two calls of a precompile in which two instructions share an AIR; counted once per (hash of the mapping, number of calls, schedule)",
    real: "autoprecompiles trace_handler::generate_trace, SymbolicMachine::main_columns; rayon's parallel iterators",
    stub: "rayon's thread pool (deterministic scheduler), the executed instruction records (uniquely numbered cells appended per AIR in execution order), the precompile (drawn columns and substitutions)",
    assumptions: &["instructions none of whose columns survive in the precompile produce no record"],
};

struct Tab {
    w: usize,
    v: Vec<u64>,
}
impl TraceTrait<F> for Tab {
    type Values = Vec<u64>;
    fn width(&self) -> usize {
        self.w
    }
    fn values(&self) -> &Vec<u64> {
        &self.v
    }
}
fn refr(id: u64) -> AlgebraicExpression<F> {
    AlgebraicExpression::Reference(AlgebraicReference { name: Arc::new(format!("c{id}")), id })
}

fn run(cx: &Cx) -> Res {
    let nb = tail(1, 3, 8);
    let mut blocks: Vec<BasicBlock<Ins>> = vec![];
    for b in 0..nb {
        if b > 0 && chance(1, 3) {
            let x = blocks[below(b)].clone();
            blocks.push(x);
            continue;
        }
        blocks.push(BasicBlock {
            start_pc: 100 * b as u64,
            instructions: (0..tail(1, 5, 30)).map(|_| Ins { kind: below(KINDS), arg: 0, branching: chance(1, 4), opaque: false }).collect(),
        });
    }
    let block: SuperBlock<Ins> = blocks.into();
    let ins: Vec<Ins> = block.instructions().map(|x| x.1.clone()).collect();
    // which original columns survive, under which names
    let keep = pick(&[2u64, 1, 4]);
    let wide = ins.iter().map(|i| airs()[i.air()].1).sum::<usize>() as u64 + 8;
    let gap = pick(&[1u64, 1, 3, 1 << 33]);
    let mut ids: Vec<u64> = (0..wide.max(64)).map(|i| i * gap).collect();
    shuffle(&mut ids);
    let mut subs: Vec<Vec<Substitution>> = vec![];
    let mut want: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    for (k, i) in ins.iter().enumerate() {
        let mut v = vec![];
        if !chance(1, 4) {
            for c in 0..airs()[i.air()].1 {
                if chance(1, keep) && !ids.is_empty() {
                    let id = ids.pop().unwrap();
                    want.insert(id, (k, c));
                    v.push(Substitution { original_poly_index: c, apc_poly_id: id });
                }
            }
        }
        subs.push(v);
    }
    let derived: Vec<u64> = (0..tail(0, 2, 12)).filter_map(|_| ids.pop()).collect();
    let mut all: Vec<u64> = want.keys().cloned().chain(derived.iter().cloned()).collect();
    shuffle(&mut all);
    // every column is used somewhere, some of them repeatedly
    let mut m = SymbolicMachine::<F> { constraints: vec![], bus_interactions: vec![], derived_columns: vec![] };
    for &id in &all {
        match below(3) {
            0 | 1 => m.constraints.push(SymbolicConstraint { expr: refr(id) }),
            _ => m.bus_interactions.push(SymbolicBusInteraction { id: 3, mult: refr(id), args: vec![refr(pick(&all))] }),
        }
    }
    m.derived_columns = derived
        .iter()
        .map(|id| DerivedVariable::new(AlgebraicReference { name: Arc::new("d".into()), id: *id }, ComputationMethod::Constant(F::from(*id % 1000))))
        .collect();
    let apc: AdapterApc<TinyVm> = Apc { block, machine: m, subs, optimistic_constraints: OptimisticConstraints::empty() };
    // the execution
    let calls = tail(0, if cx.thorough { 40 } else { 12 }, 300);
    let mut tabs: HashMap<usize, Tab> = HashMap::new();
    let mut cell: BTreeMap<(usize, usize), u64> = BTreeMap::new(); // (call, instruction) -> first cell
    let mut next = 1u64;
    for i in ins.iter() {
        tabs.entry(i.air()).or_insert(Tab { w: airs()[i.air()].1, v: vec![] });
    }
    for call in 0..calls {
        for (k, i) in ins.iter().enumerate() {
            if apc.subs[k].is_empty() {
                continue;
            }
            let t = tabs.get_mut(&i.air()).unwrap();
            cell.insert((call, k), next);
            t.v.extend(next..next + t.w as u64);
            next += t.w as u64;
        }
    }
    for t in tabs.values_mut() {
        // tables are padded
        let pad = below(3) * t.w;
        t.v.extend(std::iter::repeat_n(0, pad));
    }
    let env = draw_env();
    let (a2, t2) = (&apc, &tabs);
    let got = under(env, move || {
        let d = generate_trace::<Handler, Tab, u32, u32>(t2, &HANDLER, calls, a2);
        let idx = d.apc_poly_id_to_index.clone();
        // the rows a chip would fill
        let mut rows: Vec<Vec<Option<u64>>> = vec![];
        for row in &d.dummy_values {
            let mut r = vec![None; idx.len()];
            if row.len() != d.dummy_trace_index_to_apc_index_by_instruction.len() {
                return Err(format!("{} record references for {} mappings", row.len(), d.dummy_trace_index_to_apc_index_by_instruction.len()));
            }
            for (o, map) in row.iter().zip(&d.dummy_trace_index_to_apc_index_by_instruction) {
                let Some(vals) = o.data.get(o.start..o.start + o.length) else { return Err(format!("record {}..{} outside of its table of {}", o.start, o.start + o.length, o.data.len())) };
                for (from, to) in map {
                    let (Some(v), Some(slot)) = (vals.get(*from), r.get_mut(*to)) else { return Err(format!("mapping {from} -> {to} out of range")) };
                    if slot.replace(*v).is_some() {
                        return Err(format!("column {to} written twice"));
                    }
                }
            }
            rows.push(r);
        }
        let comp: Vec<u64> = d.columns_to_compute.iter().map(|c| c.variable.id).collect();
        Ok((idx, rows, comp))
    });
    let (idx, rows, comp) = match got {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => return violation("bad-reference", m),
        Err(m) => return violation("panic-trace", m),
    };
    let ids: BTreeSet<u64> = all.iter().cloned().collect();
    ensure!(idx.keys().cloned().collect::<BTreeSet<_>>() == ids, "wrong-columns", "columns {idx:?}, expected {ids:?}");
    ensure!(idx.values().cloned().collect::<BTreeSet<_>>() == (0..ids.len()).collect::<BTreeSet<_>>(), "wrong-columns", "column positions {idx:?}");
    ensure!(comp == derived, "wrong-derived", "columns to compute {comp:?}, expected {derived:?}");
    ensure!(rows.len() == calls, "wrong-rows", "{} rows for {calls} calls", rows.len());
    for (call, r) in rows.iter().enumerate() {
        for (id, at) in &idx {
            let exp = want.get(id).map(|(k, c)| cell[&(call, *k)] + *c as u64);
            ensure!(r[*at] == exp, "wrong-cell", "call {call}, column {id}: cell {:?}, expected {exp:?} ({:?}); instructions {ins:?} subs {:?} ({env:?})", r[*at], want.get(id), apc.subs);
        }
    }
    sim::event("map", hash(&(rows, calls)));
    let used: Vec<usize> = ins.iter().enumerate().filter(|(k, _)| !apc.subs[*k].is_empty()).map(|(_, i)| i.air()).collect();
    let uniq: BTreeSet<&usize> = used.iter().collect();
    Ok(Outcome {
        nontrivial: calls > 1 && uniq.len() < used.len(),
        signature: sim::log_hash(),
        sample: format!("{} instructions, {} with records, {calls} calls, {} columns", ins.len(), used.len(), ids.len()),
    })
}
