use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::tiny::*;
use crate::vm::walk;
use powdr_autoprecompiles::adapter::{AdapterApcWithStats, PgoAdapter};
use powdr_autoprecompiles::blocks::{collect_basic_blocks, BlockAndStats, ExecutionBasicBlockRun, ExecutionBlocks, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution_profile::ExecutionProfile;
use powdr_autoprecompiles::pgo::{ApcCandidate, CellPgo, InstructionPgo, NonePgo};
use powdr_autoprecompiles::{InstructionHandler, PowdrConfig};
use rayon_core::sim;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub static PROP: Prop = Prop {
    id: "P08",
    run,
    quick_runs: 10_000,
    warm: 24,
    thorough_runs: 120_000,
    quick_cap_s: 60,
    rule: "runs in which at least one candidate was selected and at least one was not; counted once per (hash of the selection, schedule)",
    real: "autoprecompiles pgo::{CellPgo, InstructionPgo, NonePgo} with candidate generation in parallel, greedy selection, blocks::detect_superblocks, evaluation, and build() below them",
    stub: "rayon's thread pool, the instruction set (four small AIRs and one that no execution satisfies), the profiled execution, the cost and value of a candidate (drawn functions of its block)",
    assumptions: &["among candidates of equal density any order is allowed, but it must be the same in every environment", "costs are positive"],
};

pub static SALT: AtomicU64 = AtomicU64::new(0);
pub fn cost_of(pcs: &[u64]) -> (usize, usize, usize) {
    let h = hash(&(SALT.load(SeqCst), pcs));
    // cost before, cost after, value per use
    let (mut cost, mut value) = (1 + ((h >> 8) % 12) as usize, ((h >> 20) % 9) as usize);
    if (h >> 40) % 8 == 0 {
        cost *= 700;
    }
    if (h >> 44) % 8 == 0 {
        value *= 1500;
    }
    (100 + (h % 50) as usize, cost, value)
}
pub struct Cand(pub AdapterApcWithStats<TinyVm>);
impl ApcCandidate<TinyVm> for Cand {
    fn create(a: AdapterApcWithStats<TinyVm>) -> Self {
        Cand(a)
    }
    fn inner(&self) -> &AdapterApcWithStats<TinyVm> {
        &self.0
    }
    fn into_inner(self) -> AdapterApcWithStats<TinyVm> {
        self.0
    }
    fn cost_before_opt(&self) -> usize {
        cost_of(&self.0.apc().start_pcs()).0
    }
    fn cost_after_opt(&self) -> usize {
        cost_of(&self.0.apc().start_pcs()).1
    }
    fn value_per_use(&self) -> usize {
        cost_of(&self.0.apc().start_pcs()).2
    }
}

type Runs = Vec<(Vec<u64>, u64)>;
fn remove(runs: &Runs, sb: &[u64]) -> (u64, Runs) {
    let mut n = 0;
    let mut out = vec![];
    for (r, m) in runs {
        let o = walk::occurrences(r, sb);
        n += o.len() as u64 * m;
        let mut at = 0;
        for i in o {
            if i > at {
                out.push((r[at..i].to_vec(), *m));
            }
            at = i + sb.len();
        }
        if at < r.len() {
            out.push((r[at..].to_vec(), *m));
        }
    }
    (n, out)
}
/// Is `sel` a greedy selection by value per cost over the execution that remains?
fn check_greedy(cands: &[Vec<u64>], runs: &Runs, budget: usize, max: usize, sel: &[Vec<u64>]) -> Result<(), String> {
    let mut runs = runs.clone();
    let mut left: BTreeSet<&Vec<u64>> = cands.iter().collect();
    let mut spent = 0;
    for step in 0..=sel.len() {
        if step == max {
            return if sel.len() == max { Ok(()) } else { Err(format!("more than {max} selected")) };
        }
        let live: Vec<(&Vec<u64>, u128, u128)> = left
            .iter()
            .filter_map(|c| {
                let (n, _) = remove(&runs, c);
                let (_, cost, val) = cost_of(c);
                (n > 0 && spent + cost <= budget).then_some((*c, n as u128 * val as u128, cost as u128))
            })
            .collect();
        match sel.get(step) {
            None => {
                return match live.first() {
                    None => Ok(()),
                    Some(x) => Err(format!("selection stopped after {step}, though {:?} still runs and fits", x.0)),
                }
            }
            Some(s) => {
                let Some(me) = live.iter().find(|x| x.0 == s) else {
                    return Err(format!("selection #{step} {s:?} does not fit, does not run or is no candidate"));
                };
                if let Some(b) = live.iter().find(|x| x.1 * me.2 > me.1 * x.2) {
                    return Err(format!("selection #{step} {s:?} (value {} cost {}) though {:?} (value {} cost {}) is denser", me.1, me.2, b.0, b.1, b.2));
                }
                left.remove(s);
                spent += cost_of(s).1;
                runs = remove(&runs, s).1;
            }
        }
    }
    Ok(())
}

fn run(cx: &Cx) -> Res {
    SALT.store(sim::choose(1 << 32), SeqCst);
    let mode = below(4);
    let mut w = walk::program(if cx.thorough { 40 } else { 22 }, KINDS, &[0, 0x200, 0x20_0000, 0x2000_0000]);
    let mut bad = false;
    if mode < 2 && chance(1, 4) {
        let i = below(w.prog.ins.len());
        w.prog.ins[i].kind = BAD;
        bad = true;
    }
    let blocks = collect_basic_blocks::<TinyVm>(&w.prog, &w.targets);
    let steps = w.walk(if chance(1, 40) { 300 } else { 60 });
    let pcs = w.pcs(&steps);
    let bl = w.blocks();
    let n_apc = pick(&[3u64, 1, 2, 0, 5, 100]);
    let skip = pick(&[0u64, 1, 2, 7]);
    let max_bb = if mode >= 2 { 1 } else if chance(1, 6) { range(4, 6) as u8 } else { range(1, 3) as u8 };
    let cutoff = if chance(1, 2) { None } else { Some(range(1, 4) as u32) };
    let cfg = PowdrConfig::new(n_apc, skip, crate::vm::adapter::BOUND).with_superblocks(max_bb, None, cutoff);
    let len_of: BTreeMap<u64, usize> = bl.iter().map(|&(a, b)| (w.pc(a), b - a)).collect();
    let has_bad = |pcs: &[u64]| pcs.iter().any(|p| {
        let i = ((p - w.prog.base) / 4) as usize;
        w.prog.ins[i..i + len_of[p]].iter().any(|x| x.kind == BAD)
    });
    // the executed runs and every superblock in them, by definition
    let mut runs: Runs = vec![];
    let mut cur = vec![];
    for &k in &steps {
        if bl[k].1 - bl[k].0 == 1 {
            if !cur.is_empty() {
                runs.push((std::mem::take(&mut cur), 1));
            }
        } else {
            cur.push(w.pc(bl[k].0));
        }
    }
    if !cur.is_empty() {
        runs.push((cur, 1));
    }
    let mut counts: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    for (r, _) in &runs {
        for n in 1..=(max_bb as usize).min(r.len()) {
            for s in 0..=r.len() - n {
                counts.entry(r[s..s + n].to_vec()).or_default();
            }
        }
    }
    for (sb, c) in counts.iter_mut() {
        *c = remove(&runs, sb).0;
    }
    // the execution may be a very long one: the runs repeat
    let long = mode < 2 && chance(1, 4);
    if long {
        sim::count("probe.long_execution");
        let mut merged: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
        for (r, m) in &runs {
            *merged.entry(r.clone()).or_default() += m * pick(&[1u64, 3, 255, 256, 300, 65535, 65536, 1 << 20]);
        }
        runs = merged.into_iter().collect();
        for (sb, c) in counts.iter_mut() {
            *c = remove(&runs, sb).0;
        }
    }
    counts.retain(|_, c| *c >= cutoff.unwrap_or(1) as u64);
    let mut pc_count = HashMap::new();
    for p in &pcs {
        *pc_count.entry(*p).or_insert(0u32) += 1;
    }
    let prof = ExecutionProfile { pc_count, pc_list: pcs.clone() };
    let budget = if chance(1, 2) { None } else { Some(if chance(1, 6) { range(0, 20000) } else { range(0, 30) }) };
    // instruction mode may be given statistics of very long executions
    let huge = mode == 2 && chance(1, 3);
    let mut hist: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    if huge {
        for (p, l) in &len_of {
            if *l > 1 {
                hist.insert(vec![*p], pick(&[1u64, 1 << 20, 1 << 30, (1 << 31) + 5, u32::MAX as u64]));
            }
        }
    }
    let mut prev: Option<Vec<Vec<u64>>> = None;
    let n_cand;
    let mut selected = 0;
    {
        let cands: Vec<Vec<u64>> = counts.keys().filter(|c| !has_bad(c)).cloned().collect();
        n_cand = match mode {
            0 | 1 => cands.len(),
            2 if !huge => counts.len(),
            2 => hist.len(),
            _ => len_of.values().filter(|l| **l > 1).count(),
        };
        for _ in 0..2 {
            let env = draw_env();
            let (b2, c2, p2, h2, r2, n2) = (blocks.clone(), &cfg, prof.clone(), &hist, &runs, &counts);
            let out = under(env, move || {
                let e = EmpiricalConstraints::default();
                let l = BTreeMap::new();
                match mode {
                    0 | 1 if long => {
                        let at: BTreeMap<u64, _> = b2.into_iter().map(|b| (b.start_pc, b)).collect();
                        let blocks = n2.iter().map(|(pcs, n)| BlockAndStats { block: pcs.iter().map(|p| at[p].clone()).collect::<Vec<_>>().into(), count: *n as u32 }).collect();
                        let execution_bb_runs = r2.iter().map(|(r, n)| (ExecutionBasicBlockRun(r.clone()), *n as u32)).collect();
                        CellPgo::<TinyVm, Cand>::with_pgo_data_and_max_columns(p2, budget).create_apcs_with_pgo(ExecutionBlocks { blocks, execution_bb_runs }, c2, vm_config(), l, e)
                    }
                    0 | 1 => CellPgo::<TinyVm, Cand>::with_pgo_data_and_max_columns(p2, budget).filter_blocks_and_create_apcs_with_pgo(b2, c2, vm_config(), l, e),
                    2 => {
                        let pgo = InstructionPgo::<TinyVm>::with_pgo_data(p2);
                        if huge {
                            let blocks = b2
                                .into_iter()
                                .filter_map(|b| h2.get(&vec![b.start_pc]).map(|c| BlockAndStats { block: SuperBlock::from(b), count: *c as u32 }))
                                .collect();
                            pgo.create_apcs_with_pgo(ExecutionBlocks { blocks, execution_bb_runs: vec![] }, c2, vm_config(), l, e)
                        } else {
                            pgo.filter_blocks_and_create_apcs_with_pgo(b2, c2, vm_config(), l, e)
                        }
                    }
                    _ => NonePgo::<TinyVm>::default().filter_blocks_and_create_apcs_with_pgo(b2, c2, vm_config(), l, e),
                }
            });
            let out = match out {
                Ok(o) => o,
                Err(m) => return violation("panic-pgo", format!("mode {mode}: {m}")),
            };
            let sel: Vec<Vec<u64>> = out.iter().map(|a| a.apc().start_pcs()).collect();
            let uniq: BTreeSet<&Vec<u64>> = sel.iter().collect();
            ensure!(uniq.len() == sel.len(), "duplicate", "{sel:?}");
            // every precompile carries its own block and the statistics of that block
            for a in &out {
                let want: Vec<(u64, Ins)> = a.apc().start_pcs().iter().flat_map(|p| {
                    let i = ((p - w.prog.base) / 4) as usize;
                    (i..i + len_of.get(p).copied().unwrap_or(0)).map(|i| (w.pc(i), w.prog.ins[i].clone())).collect::<Vec<_>>()
                }).collect();
                let got: Vec<(u64, Ins)> = a.apc().block.instructions().map(|(p, i)| (p, i.clone())).collect();
                ensure!(got == want, "wrong-block", "precompile {:?} holds {got:?}, expected {want:?}", a.apc().start_pcs());
                let (mut before, m) = (AirStats::default(), a.apc().machine());
                for (_, i) in &want {
                    let s = HANDLER.get_instruction_air_stats(i);
                    before.main_columns += s.main_columns;
                    before.constraints += s.constraints;
                    before.bus_interactions += s.bus_interactions;
                }
                let after = AirStats { main_columns: crate::vm::mach::columns_of(m).len(), constraints: m.constraints.len(), bus_interactions: m.bus_interactions.len() };
                let ev = a.evaluation_result();
                ensure!(ev.before == before && ev.after == after && *a.stats() == want.len(), "wrong-stats", "precompile {:?}: before {:?} (expected {before:?}), after {:?} (expected {after:?})", a.apc().start_pcs(), ev.before, ev.after);
            }
            match mode {
                0 | 1 => {
                    if n_apc == 0 {
                        ensure!(sel.is_empty(), "too-many", "{sel:?} selected though none was asked for");
                    } else {
                        // the first `skip` choices are not returned: find a prefix that explains the rest
                        let b = budget.unwrap_or(usize::MAX);
                        let r = explain(&cands, &runs, b, (n_apc + skip) as usize, skip as usize, &sel);
                        if let Err(m) = r {
                            return violation("not-greedy", format!("{m}; candidates {:?} budget {budget:?} autoprecompiles {n_apc} skip {skip}, returned {sel:?} ({env:?})", cands.iter().map(|c| (c, counts[c], cost_of(c))).collect::<Vec<_>>()));
                        }
                        if budget.is_some() {
                            let spent: usize = sel.iter().map(|s| cost_of(s).1).sum();
                            ensure!(spent <= b, "over-budget", "columns {spent} of {b}");
                        }
                    }
                }
                m => {
                    let len = |s: &Vec<u64>| s.iter().map(|p| len_of[p]).sum::<usize>() as u64;
                    let val: BTreeMap<Vec<u64>, u64> = match m {
                        2 if huge => hist.iter().map(|(s, c)| (s.clone(), c * len(s))).collect(),
                        2 => counts.iter().map(|(s, c)| (s.clone(), c * len(s))).collect(),
                        _ => len_of.iter().filter(|(_, l)| **l > 1).map(|(p, l)| (vec![*p], *l as u64)).collect(),
                    };
                    let mut vs: Vec<u64> = val.values().cloned().collect();
                    vs.sort_by(|a, b| b.cmp(a));
                    let want: Vec<u64> = vs.into_iter().skip(skip as usize).take(n_apc as usize).collect();
                    let got: Vec<u64> = sel.iter().map(|s| val.get(s).copied().unwrap_or(u64::MAX)).collect();
                    ensure!(got == want, "wrong-ranking", "mode {m} autoprecompiles {n_apc} skip {skip}: returned {sel:?} with values {got:?}, expected {want:?} of {val:?}");
                }
            }
            selected = sel.len();
            sim::event("sel", hash(&sel));
            if let Some(p) = prev.replace(sel.clone()) {
                ensure!(p == sel, "unstable-selection", "mode {mode}: {p:?} in one environment, {sel:?} in another ({env:?})");
            }
        }
    }
    Ok(Outcome {
        nontrivial: selected > 0 && selected < n_cand,
        signature: sim::log_hash(),
        sample: format!("mode {mode}: {n_cand} candidates, {} executed blocks, autoprecompiles {n_apc}, skip {skip}, budget {budget:?}, failing block {bad}: {selected} selected", steps.len()),
    })
}
/// Searches for the skipped prefix (only ties leave a choice).
fn explain(cands: &[Vec<u64>], runs: &Runs, budget: usize, max: usize, skip: usize, sel: &[Vec<u64>]) -> Result<(), String> {
    fn go(cands: &[Vec<u64>], runs0: &Runs, runs: &Runs, budget: usize, max: usize, skip: usize, sel: &[Vec<u64>], pre: &mut Vec<Vec<u64>>, fuel: &mut u32) -> Result<(), String> {
        if *fuel == 0 {
            return Ok(());
        }
        *fuel -= 1;
        if pre.len() == skip {
            let mut all = pre.clone();
            all.extend(sel.iter().cloned());
            return check_greedy(cands, runs0, budget, max, &all);
        }
        let spent: usize = pre.iter().map(|s| cost_of(s).1).sum();
        let live: Vec<(&Vec<u64>, u128, u128)> = cands
            .iter()
            .filter(|c| !pre.contains(c))
            .filter_map(|c| {
                let (n, _) = remove(runs, c);
                let (_, cost, val) = cost_of(c);
                (n > 0 && spent + cost <= budget).then_some((c, n as u128 * val as u128, cost as u128))
            })
            .collect();
        if live.is_empty() {
            return if sel.is_empty() { Ok(()) } else { Err(format!("only {} candidates can be chosen, all of them skipped", pre.len())) };
        }
        let mut err = Err(String::new());
        for x in &live {
            if live.iter().any(|y| y.1 * x.2 > x.1 * y.2) {
                continue;
            }
            pre.push(x.0.clone());
            let r = go(cands, runs0, &remove(runs, x.0).1, budget, max, skip, sel, pre, fuel);
            pre.pop();
            if r.is_ok() {
                return r;
            }
            err = r;
        }
        err
    }
    go(cands, runs, runs, budget, max, skip, sel, &mut vec![], &mut 3000)
}
