//! End to end: a program of the simulated zkVM is profiled, precompiles are built and
//! selected, and another execution is proved with them.
use super::apc::effect;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::*;
use crate::vm::gen as vg;
use crate::vm::isa::*;
use crate::vm::mach::*;
use crate::vm::{self, P};
use powdr_autoprecompiles::adapter::{AdapterApcWithStats, PgoAdapter};
use powdr_autoprecompiles::blocks::{collect_basic_blocks, detect_superblocks, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, EmpiricalConstraints, Partition};
use powdr_autoprecompiles::execution::{Apc, ApcCandidates, OptimisticConstraints};
use powdr_autoprecompiles::execution_profile::execution_profile;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::pgo::{ApcCandidate, CellPgo, InstructionPgo, NonePgo};
use powdr_autoprecompiles::trace_handler::{generate_trace, TraceTrait};
use powdr_autoprecompiles::PowdrConfig;
use powdr_number::BabyBearField as F;
use rayon_core::sim;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub static PROP: Prop = Prop {
    id: "P17",
    run,
    quick_runs: 400,
    warm: 2,
    thorough_runs: 40_000,
    quick_cap_s: 60,
    rule: "a run proves one execution with at least one precompile call and at least one instruction outside of precompiles; distinct by (program, selected blocks, calls)",
    real: "autoprecompiles end to end: block collection, execution_profile, superblock detection, CellPgo / InstructionPgo / NonePgo, build() with the whole optimizer stack, optimistic constraints, execution::ApcCandidates, trace_handler::generate_trace, serialization of precompiles; constraint-solver, openvm-bus-interaction-handler, number; rayon's parallel iterators",
    stub: "the zkVM (reference interpreter, instruction rows, segmentation), the proving system (row verifier: constraints, lookups, program table, balance of the stateful buses over the whole execution), rayon's thread pool, OS randomness, clock",
    assumptions: &["precompiles specialised to a profile are only asked to represent the profiled execution", "the executor offers a precompile at every step whose pc is its first block's start"],
};

struct Cand(AdapterApcWithStats<SimVm>);
impl ApcCandidate<SimVm> for Cand {
    fn create(a: AdapterApcWithStats<SimVm>) -> Self {
        Cand(a)
    }
    fn inner(&self) -> &AdapterApcWithStats<SimVm> {
        &self.0
    }
    fn into_inner(self) -> AdapterApcWithStats<SimVm> {
        self.0
    }
    fn cost_before_opt(&self) -> usize {
        self.0.stats().0
    }
    fn cost_after_opt(&self) -> usize {
        self.0.stats().1
    }
    fn value_per_use(&self) -> usize {
        self.0.stats().0.saturating_sub(self.0.stats().1)
    }
}
struct Rt {
    oc: OptimisticConstraints<u32, u32>,
    cycles: usize,
    prio: usize,
}
impl Apc<Snapshot> for Rt {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u32, u32> {
        &self.oc
    }
    fn cycle_count(&self) -> usize {
        self.cycles
    }
    fn priority(&self) -> usize {
        self.prio
    }
}
struct Tab {
    w: usize,
    v: Vec<u64>,
}
impl TraceTrait<F> for Tab {
    type Values = Vec<u64>;
    fn width(&self) -> usize {
        self.w
    }
    fn values(&self) -> &Vec<u64> {
        &self.v
    }
}

struct Code {
    prog: Prog,
    targets: BTreeSet<u64>,
    halt: u32,
}
fn straight(m: &vg::Mix) -> Ins {
    let i = m.straight();
    if (528..=535).contains(&i.op) {
        // x8 holds the address of the data
        let al = match i.op {
            528 | 531 => 4,
            530 | 532 | 535 => 2,
            _ => 1,
        };
        return mem(i.op, i.a[0] / 4, 8, al * below(8) as i32);
    }
    i
}
/// Loops around straight code, skips, calls and opaque instructions.
fn draw_code(m: &vg::Mix, max: usize) -> Code {
    let base = pick(&[0x20_0000u64, 0x1000, 0x1_fff0]);
    let mut ins: Vec<Ins> = vec![];
    let mut targets = BTreeSet::new();
    let mut calls: Vec<usize> = vec![];
    for _ in 0..range(1, 2) {
        ins.push(alu_i(512, 9, 0, range(1, 4) as i32));
        let top = ins.len();
        for _ in 0..range(1, 3) {
            match below(6) {
                0 | 1 => {
                    let k = range(1, 3);
                    let (a, b) = (pick(&m.regs), if chance(1, 3) { 0 } else { pick(&m.regs) });
                    ins.push(branch(pick(&[544u32, 545, 549, 550, 551, 552]), a, b, 4 * (k as i64 + 1)));
                    ins.extend((0..k).map(|_| straight(m)));
                    targets.insert(base + 4 * ins.len() as u64);
                }
                2 => {
                    calls.push(ins.len());
                    ins.push(jal(19, 0));
                }
                3 if chance(1, 2) => ins.push(ecall()),
                _ => ins.extend((0..range(1, max)).map(|_| straight(m))),
            }
        }
        ins.push(alu_i(512, 9, 9, -1));
        let back = 4 * (top as i64 - ins.len() as i64);
        ins.push(branch(545, 9, 0, back));
        targets.insert(base + 4 * top as u64);
    }
    let halt = base as u32 + 4 * ins.len() as u32;
    ins.push(ecall());
    if !calls.is_empty() {
        let n = range(1, 2).min(calls.len());
        let entries: Vec<usize> = (0..n)
            .map(|_| {
                let e = ins.len();
                ins.extend((0..range(1, max)).map(|_| straight(m)));
                ins.push(jalr(0, 19, 0));
                targets.insert(base + 4 * e as u64);
                e
            })
            .collect();
        for c in calls {
            ins[c] = jal(19, 4 * (pick(&entries) as i64 - c as i64));
        }
    }
    Code { prog: Prog { base, ins }, targets, halt }
}
struct Run {
    states: Vec<State>,
    rows: Vec<Vec<u64>>,
}
impl Code {
    fn at(&self, pc: u32) -> &Ins {
        &self.prog.ins[(pc as usize - self.prog.base as usize) / 4]
    }
    fn run(&self, s: &State, each: impl Fn(u32)) -> Run {
        let mut r = Run { states: vec![s.clone()], rows: vec![] };
        let mut s = s.clone();
        while s.pc != self.halt {
            each(s.pc);
            assert!(r.rows.len() < 2000, "harness: program does not end");
            let i = self.at(s.pc);
            r.rows.push(step(&mut s, i, true).unwrap_or_else(|e| panic!("harness: {e:?}")));
            r.states.push(s.clone());
        }
        r
    }
}
fn start(m: &vg::Mix, c: &Code) -> State {
    let mut s = vg::state(m, c.prog.base as u32);
    let t = s.ts;
    for (r, v) in [(8u32, 0x1000u32), (9, 7), (19, 3)] {
        s.cells.insert((1, 4 * r), (v, sim::choose(t as u64) as u32));
    }
    s
}
/// What profiling the rows of one execution records.
fn learn(c: &Code, blocks: &[(u64, usize)], r: &Run) -> EmpiricalConstraints {
    let mut e = EmpiricalConstraints::default();
    let len: BTreeMap<u64, usize> = blocks.iter().cloned().collect();
    let mut classes: BTreeMap<u64, Vec<Partition<BlockCell>>> = BTreeMap::new();
    let mut t = 0;
    while t < r.rows.len() {
        let pc = r.states[t].pc as u64;
        let n = len[&pc];
        if !c.at(pc as u32).opaque() {
            let mut by: BTreeMap<u64, Vec<BlockCell>> = BTreeMap::new();
            for i in 0..n {
                let (pc, row) = (r.states[t + i].pc, &r.rows[t + i]);
                let ranges = e.column_ranges_by_pc.entry(pc).or_insert_with(|| row.iter().map(|v| (*v as u32, *v as u32)).collect());
                for (x, v) in ranges.iter_mut().zip(row) {
                    x.0 = x.0.min(*v as u32);
                    x.1 = x.1.max(*v as u32);
                }
                *e.pc_counts.entry(pc).or_insert(0) += 1;
                e.debug_info.air_id_by_pc.insert(pc, c.at(pc).air());
                e.debug_info.column_names_by_air_id.insert(c.at(pc).air(), vm::air::airs()[c.at(pc).air()].cols.clone());
                for (col, v) in row.iter().enumerate() {
                    by.entry(*v).or_default().push(BlockCell::new(i, col));
                }
            }
            classes.entry(pc).or_default().push(by.into_values().collect());
        }
        t += n;
    }
    for (k, v) in classes {
        e.equivalence_classes_by_block.insert(k, Partition::intersect_many(v));
    }
    e
}

/// A long chain of blocks of the small machine: it is called where the execution takes the
/// chain, and where the execution leaves the chain at any of its blocks it is not.
fn chain(cx: &Cx) -> Result<(), Violation> {
    use crate::vm::{tiny, walk};
    let w = walk::program(if cx.thorough { 40 } else { 24 }, tiny::KINDS, &[0, 0x200, 0x20_0000]);
    let bl = w.blocks();
    let usable = |k: usize| !w.prog.ins[bl[k].0].opaque;
    let steps = w.walk(30);
    let from = below(steps.len());
    let ks: Vec<usize> = steps[from..].iter().copied().take_while(|k| usable(*k)).take(range(2, 9)).collect();
    if ks.len() < 2 {
        return Ok(());
    }
    let blocks = collect_basic_blocks::<tiny::TinyVm>(&w.prog, &w.targets);
    let sb = SuperBlock::from(ks.iter().map(|k| blocks[*k].clone()).collect::<Vec<_>>());
    let starts: Vec<u32> = ks.iter().map(|k| w.pc(bl[*k].0) as u32).collect();
    let a = match under(draw_env(), move || powdr_autoprecompiles::build::<tiny::TinyVm>(sb, tiny::vm_config(), BOUND, ExportOptions::default(), &EmpiricalConstraints::default()).expect("build")) {
        Ok(a) => a,
        Err(x) => return violation("panic-compile", format!("chain {starts:?}: {x}")),
    };
    let pcs: Vec<u32> = ks.iter().flat_map(|k| (bl[*k].0..bl[*k].1).map(|i| w.pc(i) as u32)).collect();
    let mut border = vec![0];
    for k in &ks {
        border.push(border.last().unwrap() + bl[*k].1 - bl[*k].0);
    }
    let others: Vec<u32> = bl.iter().map(|b| w.pc(b.0) as u32).chain([w.pc(w.prog.ins.len()) as u32]).collect();
    for leave in 0..=ks.len() {
        // the execution takes `leave` blocks of the chain and continues at `to`, possibly back in the chain
        let mut run = pcs.clone();
        if leave > 0 && leave < ks.len() {
            let to = pick(&others);
            let back = leave + 1 < ks.len() && chance(1, 2);
            let end = if back { border[leave + 1] } else { pcs.len() };
            for (i, p) in run[border[leave]..end].iter_mut().enumerate() {
                *p = to + 4 * i as u32;
            }
        }
        let taken = (0..ks.len()).all(|k| run[border[k]] == starts[k]);
        let rt = Rt { oc: a.optimistic_constraints.clone(), cycles: pcs.len(), prio: 1 };
        let mut c: ApcCandidates<Snapshot, Rt, usize> = ApcCandidates::new(vec![rt]);
        let mut calls = vec![];
        run.push(pick(&others));
        for (t, pc) in run.iter().enumerate() {
            let st = Snapshot(State { pc: *pc, ts: 100 + 3 * t as u32, cells: BTreeMap::new() });
            if t > 0 {
                c.check_conditions(&st, || t);
                calls.extend(c.extract_calls());
            } else {
                let _ = c.try_insert(&st, 0, || t);
            }
        }
        sim::count(if taken { "probe.chain_taken" } else { "probe.chain_left" });
        ensure!(
            calls.len() == taken as usize && calls.iter().all(|x| (x.from, x.to) == (0, pcs.len())),
            "chain-called",
            "a chain of blocks at {starts:?} was {} although the execution was at {run:?}, of which the chain's instructions are {pcs:?}",
            if taken { "not called" } else { "called" }
        );
    }
    Ok(())
}

fn run(cx: &Cx) -> Res {
    chain(cx)?;
    let m = vg::mix();
    let code = draw_code(&m, if cx.thorough { 6 } else { 4 });
    let sa = start(&m, &code);
    let learned = chance(1, 4);
    let sb = if learned { sa.clone() } else { start(&m, &code) };
    let rb = code.run(&sb, |_| {});
    let show = || code.prog.ins.iter().enumerate().map(|(k, i)| format!("{}: {i}", code.prog.base + 4 * k as u64)).collect::<Vec<_>>().join("; ");
    let restricted = learned && chance(1, 2);
    std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", if restricted { "1" } else { "0" });
    let mode = below(8);
    let n_apc = range(1, 3);
    let max_bb = pick(&[1u8, 2, 2, 3, 3, 5]);
    let salt = sim::choose(1 << 20);
    // the compiling party
    let compile = || -> Vec<SimApc> {
        let blocks = collect_basic_blocks::<SimVm>(&code.prog, &code.targets);
        let lens: Vec<(u64, usize)> = blocks.iter().map(|b| (b.start_pc, b.instructions.len())).collect();
        let prof = execution_profile::<SimVm>(&code.prog, || {
            code.run(&sa, |pc| tracing::trace!(pc = pc as u64, "executing"));
        });
        let emp = if learned { learn(&code, &lens, &code.run(&sa, |_| {})) } else { EmpiricalConstraints::default() };
        let l = BTreeMap::new();
        let cfg = PowdrConfig::new(n_apc as u64, 0, BOUND);
        match mode {
            0 => NonePgo::<SimVm>::default().filter_blocks_and_create_apcs_with_pgo(blocks, &cfg, vm_config(), l, emp).into_iter().map(|a| (*a.into_parts().0).clone()).collect(),
            1 | 2 => InstructionPgo::<SimVm>::with_pgo_data(prof).filter_blocks_and_create_apcs_with_pgo(blocks, &cfg, vm_config(), l, emp).into_iter().map(|a| (*a.into_parts().0).clone()).collect(),
            3 => {
                let cfg = cfg.with_superblocks(max_bb.min(2), Some(8), Some(2));
                CellPgo::<SimVm, Cand>::with_pgo_data_and_max_columns(prof, None).filter_blocks_and_create_apcs_with_pgo(blocks, &cfg, vm_config(), l, emp).into_iter().map(|a| (*a.into_parts().0).clone()).collect()
            }
            _ => {
                // any superblocks of the profile
                let cfg = cfg.with_superblocks(max_bb, Some(12), None);
                let det = detect_superblocks(&cfg, &prof.pc_list, blocks);
                let mut sbs: Vec<SuperBlock<Ins>> = det.blocks.into_iter().map(|b| b.block).collect();
                sbs.sort_by_key(|b| (salt % 3 > 0 && b.start_pcs().len() == 1, hash(&(salt, b.start_pcs()))));
                sbs.truncate(n_apc);
                sbs.into_iter().map(|b| powdr_autoprecompiles::build::<SimVm>(b, vm_config(), BOUND, ExportOptions::default(), &emp).expect("build")).collect()
            }
        }
    };
    let env = draw_env();
    let mut apcs = match under(env, compile) {
        Ok(a) => a,
        Err(x) => return violation("panic-compile", format!("mode {mode}: {x} for {}", show())),
    };
    let reload = chance(1, 2);
    if reload {
        // the prover is another process: it reads what the compiler stored
        sim::count("fault.restart_between_stages");
        let text = serde_json::to_string(&apcs).unwrap();
        apcs = match must("reload", || serde_json::from_str(&text).unwrap()) {
            Ok(a) => a,
            Err(v) => return Err(v),
        };
    }
    // the verifying party compiles for itself
    let verifier = if chance(1, 4) {
        let env = draw_env();
        match under(env, compile) {
            Ok(a) => a,
            Err(x) => return violation("panic-compile", format!("mode {mode}: {x} for {}", show())),
        }
    } else {
        apcs.clone()
    };
    ensure!(verifier.len() == apcs.len(), "unstable", "{} precompiles in one environment, {} in another", apcs.len(), verifier.len());
    let mut machs = vec![];
    for a in &verifier {
        match Mach::new(a.machine()) {
            Ok(m) => machs.push(m),
            Err(e) => return violation("unfillable", format!("{e} for {:?} of {}", a.start_pcs(), show())),
        }
    }
    let pcs: Vec<Vec<u32>> = apcs.iter().map(|a| a.block.pcs().map(|p| p as u32).collect()).collect();
    for (a, p) in apcs.iter().zip(&pcs) {
        let same = a.instructions().zip(p).all(|(i, pc)| code.at(*pc) == i);
        ensure!(same && a.instructions().count() == p.len(), "wrong-block", "precompile {:?} does not hold its instructions of {}", a.start_pcs(), show());
    }
    // the executor
    let rts: Vec<Rt> = apcs.iter().enumerate().map(|(i, a)| Rt { oc: a.optimistic_constraints.clone(), cycles: a.instructions().count(), prio: if chance(1, 3) { 7 } else { apcs.len() - i } }).collect();
    let cut_den = pick(&[0u64, 40, 9]);
    let mut cuts: BTreeSet<usize> = BTreeSet::new();
    let mut calls = vec![];
    let mut c: ApcCandidates<Snapshot, Rt, usize> = ApcCandidates::new(rts);
    let n = rb.rows.len();
    for t in 0..=n {
        let st = Snapshot(rb.states[t].clone());
        if t > 0 {
            c.check_conditions(&st, || t);
        }
        if cut_den > 0 && chance(1, cut_den) {
            sim::count("fault.segment_cut");
            cuts.insert(t);
            c.abort_in_progress();
        }
        if chance(3, 4) {
            calls.extend(c.extract_calls());
        }
        let mut order: Vec<usize> = (0..apcs.len()).filter(|k| pcs[*k][0] == rb.states[t].pc).collect();
        shuffle(&mut order);
        for k in order {
            let _ = c.try_insert(&st, k, || t);
        }
    }
    c.abort_in_progress();
    calls.extend(c.extract_calls());
    // what was executed where
    let occ: Vec<(usize, usize, usize)> = (0..apcs.len())
        .flat_map(|k| {
            let p = &pcs[k];
            (0..n).filter(|t| t + p.len() <= n && (0..p.len()).all(|i| rb.states[t + i].pc == p[i])).map(|t| (k, t, t + p.len())).collect::<Vec<_>>()
        })
        .collect();
    let mut owner: Vec<Option<usize>> = vec![None; n];
    for (ci, x) in calls.iter().enumerate() {
        ensure!(occ.contains(&(x.apc_id, x.from, x.to)), "wrong-call", "precompile {:?} was called for steps {}..{}, which executed {:?}; program {}", apcs[x.apc_id].start_pcs(), x.from, x.to, (x.from..x.to.min(n)).map(|t| rb.states[t].pc).collect::<Vec<_>>(), show());
        for o in &mut owner[x.from..x.to] {
            ensure!(o.is_none(), "overlap", "steps {}..{} of precompile {:?} are covered twice", x.from, x.to, apcs[x.apc_id].start_pcs());
            *o = Some(ci);
        }
    }
    for (k, a, b) in &occ {
        let alone = occ.iter().all(|(k2, a2, b2)| (k2, a2) == (k, a) || b2 <= a || b <= a2);
        if alone && !cuts.iter().any(|c| a < c && c < b) {
            ensure!(owner[*a].is_some(), "missed-call", "steps {a}..{b} are an undisturbed execution of precompile {:?}, which was not called; program {}", apcs[*k].start_pcs(), show());
        }
    }
    // the prover: rows of the precompiles from the records of their calls, the rest as is
    let mut net = Net::new();
    for (k, a) in apcs.iter().enumerate() {
        let mine: Vec<(usize, usize)> = calls.iter().filter(|x| x.apc_id == k).map(|x| (x.from, x.to)).collect();
        let mut tabs: HashMap<usize, Tab> = HashMap::new();
        for i in a.instructions() {
            tabs.entry(i.air()).or_insert(Tab { w: vm::air::airs()[i.air()].cols.len(), v: vec![] });
        }
        for (f, _) in &mine {
            for (i, (ins, s)) in a.instructions().zip(a.subs()).enumerate() {
                if !s.is_empty() {
                    tabs.get_mut(&ins.air()).unwrap().v.extend(&rb.rows[f + i]);
                }
            }
        }
        let (t2, calls_n) = (&tabs, mine.len());
        let mk = &machs[k];
        let rows = under(draw_env(), move || {
            let d = generate_trace::<Handler, Tab, u32, u32>(t2, &HANDLER, calls_n, a);
            let at: BTreeMap<usize, u64> = d.apc_poly_id_to_index.iter().map(|(id, i)| (*i, *id)).collect();
            d.dummy_values
                .iter()
                .map(|r| {
                    let mut row = vec![None; mk.ids.len()];
                    for (o, map) in r.iter().zip(&d.dummy_trace_index_to_apc_index_by_instruction) {
                        for (from, to) in map {
                            row[mk.ix[&at[to]]] = Some(o.data[o.start..o.start + o.length][*from]);
                        }
                    }
                    row
                })
                .collect::<Vec<_>>()
        });
        let rows = match rows {
            Ok(r) => r,
            Err(x) => return violation("panic-trace", format!("{x} for precompile {:?} of {}", a.start_pcs(), show())),
        };
        ensure!(rows.len() == mine.len(), "wrong-rows", "{} rows for {} calls", rows.len(), mine.len());
        for (r, (f, t)) in rows.iter().zip(&mine) {
            let der: BTreeSet<usize> = mk.derived.iter().map(|d| d.0).collect();
            if let Some(x) = (0..r.len()).find(|x| r[*x].is_none() && !der.contains(x)) {
                return violation("unfillable", format!("no rule to fill column {} of {:?}", mk.names[x], a.start_pcs()));
            }
            let mut row: Vec<u64> = r.iter().map(|x| x.unwrap_or(0)).collect();
            mk.derive(&mut row);
            if let Err(x) = mk.check(&row) {
                return violation("rejected", format!("steps {f}..{t}, precompile {:?}: {x}; program {}", a.start_pcs(), show()));
            }
            mk.net(&row, &mut net);
        }
    }
    for t in (0..n).filter(|t| owner[*t].is_none()) {
        let (s, e) = (&rb.states[t], &rb.states[t + 1]);
        let i = code.at(s.pc);
        if i.opaque() {
            for (st, mlt) in [(s, P - 1), (e, 1)] {
                let k = (EXEC, vec![st.pc as u64, st.ts as u64]);
                let x = net.entry(k.clone()).or_insert(0);
                *x = vm::add(*x, mlt);
                if *x == 0 {
                    net.remove(&k);
                }
            }
        } else {
            air_machs()[i.air()].net(&rb.rows[t], &mut net);
        }
    }
    let mut want = Net::new();
    effect(&rb.states[0], &rb.states[n], &mut want);
    ensure!(net == want, "effect", "calls {:?}: the execution with precompiles has effect {} instead of {}; program {}", calls.iter().map(|c| (c.apc_id, c.from, c.to)).collect::<Vec<_>>(), show_net(&net), show_net(&want), show());
    sim::count_n("probe.calls", calls.len() as u64);
    sim::count_n("probe.precompiles", apcs.len() as u64);
    if pcs.iter().zip(&apcs).any(|(_, a)| a.start_pcs().len() > 1 && calls.iter().any(|c| apcs[c.apc_id].start_pcs() == a.start_pcs())) {
        sim::count("probe.superblock_called");
    }
    if occ.len() > calls.len() {
        sim::count("probe.occurrence_not_called");
    }
    let sig = hash(&(code.prog.ins.clone(), apcs.iter().map(|a| a.start_pcs()).collect::<Vec<_>>(), calls.iter().map(|c| (c.apc_id, c.from)).collect::<Vec<_>>()));
    sim::event("calls", sig);
    Ok(Outcome {
        nontrivial: !calls.is_empty() && owner.iter().any(|o| o.is_none()),
        signature: sig,
        sample: format!("mode {mode}: {} instructions, {n} steps, {} precompiles {:?}, {} calls, {} cuts, learned {learned}, reloaded {reload}", code.prog.ins.len(), apcs.len(), apcs.iter().map(|a| a.start_pcs().len()).collect::<Vec<_>>(), calls.len(), cuts.len()),
    })
}
