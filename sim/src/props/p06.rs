use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, ConstraintGenerator, DebugInfo, EmpiricalConstraints, EqualityExpression, Partition};
use powdr_autoprecompiles::expression::AlgebraicReference;
use powdr_autoprecompiles::optimistic::algebraic_references::BlockCellAlgebraicReferenceMapper;
use powdr_number::{BabyBearField as F, FieldElement, LargeInt};
use crate::vm::tiny::{self, TinyVm};
use rayon::prelude::*;
use rayon_core::sim;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use crate::vm::P;

pub static PROP: Prop = Prop {
    id: "P06",
    run,
    quick_runs: 150_000,
    warm: 0,
    thorough_runs: 600_000,
    quick_cap_s: 60,
    rule: "runs that merged at least two observations whose merged knowledge is non-empty; counted once per (hash of the merged result and the operation order, schedule)",
    real: "autoprecompiles equivalence_classes::Partition (parallel and sequential intersection), empirical_constraints::{EmpiricalConstraints, DebugInfo, ConstraintGenerator}; rayon's parallel iterators",
    stub: "rayon's thread pool (deterministic scheduler), the profiled executions",
    assumptions: &["observations merged for one instruction have the same number of columns"],
};


type Classes = BTreeSet<BTreeSet<u32>>;
/// Reference: label vectors.  Two elements are equivalent iff equal in every observation.
fn model(obs: &[Vec<u32>]) -> Classes {
    let n = obs[0].len();
    let mut m: BTreeMap<Vec<u32>, BTreeSet<u32>> = BTreeMap::new();
    for e in 0..n {
        m.entry(obs.iter().map(|o| o[e]).collect()).or_default().insert(e as u32);
    }
    m.into_values().filter(|c| c.len() > 1).collect()
}
fn part(o: &[u32]) -> Partition<u32> {
    let mut m: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for (e, l) in o.iter().enumerate() {
        m.entry(*l).or_default().push(e as u32);
    }
    m.into_values().collect()
}
fn canon<T: Ord + Clone + Eq + std::hash::Hash>(p: &Partition<T>) -> BTreeSet<BTreeSet<T>> {
    p.to_classes().into_iter().map(|c| c.into_iter().collect()).collect()
}

fn run(cx: &Cx) -> Res {
    if below(2) == 0 {
        partitions(cx)
    } else {
        empirical(cx)
    }
}

fn partitions(cx: &Cx) -> Res {
    let n = range(2, 24);
    let count = match below(6) {
        0..=2 => range(1, 6),
        3 => pick(&[63usize, 64, 65, 127, 128, 129]),
        4 => range(60, 200),
        _ => {
            if cx.thorough {
                pick(&[4096usize, 4097, 4160, 1000])
            } else {
                range(190, 400)
            }
        }
    };
    // observations are mostly refinements of few patterns so that the intersection stays non-trivial
    let k = range(1, 4) as u32;
    let base: Vec<u32> = (0..n).map(|_| sim::choose(k as u64) as u32).collect();
    let mut obs: Vec<Vec<u32>> = vec![];
    for _ in 0..count {
        let mut o = base.clone();
        if count < 20 || chance(1, 16) {
            for _ in 0..below(3) {
                let e = below(n);
                o[e] = k + below(3) as u32;
            }
        }
        // relabelling does not change the partition
        if chance(1, 8) {
            o.iter_mut().for_each(|l| *l = 17 - *l);
        }
        obs.push(o);
    }
    let want = model(&obs);
    let env = draw_env();
    let o2 = &obs;
    let how = below(5);
    let got = under(env, move || {
        let parts: Vec<Partition<u32>> = o2.iter().map(|o| part(o)).collect();
        let p = match how {
            0 | 1 => Partition::parallel_intersect(parts.into_par_iter()),
            2 => Partition::intersect_many(parts),
            3 => {
                let mut parts = parts;
                shuffle(&mut parts);
                Partition::parallel_intersect(parts.into_par_iter())
            }
            _ => {
                // through storage, half-way
                let mid = parts.len() / 2;
                let mut it = parts.into_iter();
                let a: Vec<_> = it.by_ref().take(mid.max(1)).collect();
                let a = Partition::parallel_intersect(a.into_par_iter());
                let a: Partition<u32> = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
                it.fold(a, |a, b| a.intersected_with(b))
            }
        };
        // shift into another universe and glue two copies together
        let q = p.clone().map_elements(|e| e + 1000);
        let both = p.clone().combine(q);
        (canon(&p), canon(&both))
    });
    let (got, both) = match got {
        Ok(g) => g,
        Err(p) => return violation("panic-partition", p),
    };
    ensure!(got == want, "wrong-intersection", "intersecting {count} partitions of {n} elements ({env:?}, how={how}) gave {got:?}, expected {want:?}");
    let mut w2: Classes = want.clone();
    w2.extend(want.iter().map(|c| c.iter().map(|e| e + 1000).collect::<BTreeSet<_>>()));
    ensure!(both == w2, "wrong-combination", "combining disjoint partitions gave {both:?}, expected {w2:?}");
    sim::event("classes", hash(&got));
    Ok(Outcome { nontrivial: count > 1 && !want.is_empty(), signature: sim::log_hash() ^ count as u64, sample: format!("{count} partitions of {n} elements, how={how}, {} classes left", want.len()) })
}

#[derive(Clone, Debug)]
struct Obs {
    // per executed block: start pc, one value per (instruction, column)
    rows: Vec<(u64, Vec<Vec<u32>>)>,
}

fn empirical(_cx: &Cx) -> Res {
    // a program of blocks with fixed shapes
    let nb = tail(1, 4, 9);
    let blocks: Vec<(u64, Vec<usize>)> = (0..nb).map(|i| (400 * (i as u64 + 1), (0..tail(1, 3, 20)).map(|_| tail(1, 4, 45)).collect())).collect();
    let nobs = tail(1, 7, 40);
    // mostly few values, so that cells agree; now and then the whole range of a cell
    let value = || match below(24) {
        0 => sim::choose(P) as u32,
        1 => pick(&[1u32, 2, 4, 255, 256, 65535, 65536, P as u32 - 1, P as u32 - 2]),
        _ => sim::choose(2) as u32 * 3,
    };
    let obs: Vec<Obs> = (0..nobs)
        .map(|_| Obs {
            rows: (0..tail(0, 4, 30))
                .map(|_| {
                    let (pc, shape) = blocks[below(nb)].clone();
                    (pc, shape.iter().map(|w| (0..*w).map(|_| value()).collect()).collect())
                })
                .collect(),
        })
        .collect();
    let env = draw_env();
    // one EmpiricalConstraints per observation batch, as a profiling run produces it
    let mk = |o: &Obs| -> EmpiricalConstraints {
        let mut e = EmpiricalConstraints::default();
        for (pc, insns) in &o.rows {
            for (i, cols) in insns.iter().enumerate() {
                let ipc = (*pc + 4 * i as u64) as u32;
                let r = e.column_ranges_by_pc.entry(ipc).or_insert_with(|| cols.iter().map(|v| (*v, *v)).collect());
                for (k, v) in cols.iter().enumerate() {
                    r[k] = (r[k].0.min(*v), r[k].1.max(*v));
                }
                *e.pc_counts.entry(ipc).or_default() += 1;
                e.debug_info.air_id_by_pc.insert(ipc, cols.len());
                e.debug_info.column_names_by_air_id.insert(cols.len(), (0..cols.len()).map(|c| format!("c{c}")).collect());
            }
        }
        for (pc, _) in &blocks {
            let ps: Vec<Partition<BlockCell>> = o
                .rows
                .iter()
                .filter(|(p, _)| p == pc)
                .map(|(_, insns)| {
                    let mut m: BTreeMap<u32, Vec<BlockCell>> = BTreeMap::new();
                    for (i, cols) in insns.iter().enumerate() {
                        for (k, v) in cols.iter().enumerate() {
                            m.entry(*v).or_default().push(BlockCell::new(i, k));
                        }
                    }
                    m.into_values().collect()
                })
                .collect();
            if !ps.is_empty() {
                e.equivalence_classes_by_block.insert(*pc, Partition::parallel_intersect(ps.into_par_iter()));
            }
        }
        e
    };
    let o2 = &obs;
    let mkr = &mk;
    let got = under(env, move || {
        let parts: Vec<EmpiricalConstraints> = o2.iter().map(mkr).collect();
        // any merge order, with restarts from storage in between
        let mut q = parts;
        while q.len() > 1 {
            let a = below(q.len());
            let mut x = q.swap_remove(a);
            let b = below(q.len());
            let y = q.swap_remove(b);
            x.combine_with(y);
            if chance(1, 6) {
                sim::count("fault.crash");
                x = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
            }
            q.push(x);
        }
        q.pop().unwrap()
    });
    let mut got = match got {
        Ok(g) => g,
        Err(p) => return violation("panic-combine", p),
    };
    // reference: everything observed at once
    let all = Obs { rows: obs.iter().flat_map(|o| o.rows.clone()).collect() };
    let mut ranges: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
    let mut counts: BTreeMap<u32, u64> = BTreeMap::new();
    let mut classes: BTreeMap<u64, BTreeSet<BTreeSet<(usize, usize)>>> = BTreeMap::new();
    for (pc, insns) in &all.rows {
        for (i, cols) in insns.iter().enumerate() {
            let ipc = (*pc + 4 * i as u64) as u32;
            *counts.entry(ipc).or_default() += 1;
            let r = ranges.entry(ipc).or_insert_with(|| vec![(u32::MAX, 0); cols.len()]);
            for (k, v) in cols.iter().enumerate() {
                r[k] = (r[k].0.min(*v), r[k].1.max(*v));
            }
        }
    }
    for (pc, shape) in &blocks {
        let rows: Vec<&Vec<Vec<u32>>> = all.rows.iter().filter(|(p, _)| p == pc).map(|(_, r)| r).collect();
        if rows.is_empty() {
            continue;
        }
        let mut m: BTreeMap<Vec<u32>, BTreeSet<(usize, usize)>> = BTreeMap::new();
        for (i, w) in shape.iter().enumerate() {
            for k in 0..*w {
                m.entry(rows.iter().map(|r| r[i][k]).collect()).or_default().insert((i, k));
            }
        }
        classes.insert(*pc, m.into_values().filter(|c| c.len() > 1).collect());
    }
    let cells = |p: &Partition<BlockCell>, nb: usize| -> BTreeSet<BTreeSet<(usize, usize)>> {
        let mut names: BTreeMap<BlockCell, (usize, usize)> = BTreeMap::new();
        for i in 0..nb {
            for k in 0..50 {
                names.insert(BlockCell::new(i, k), (i, k));
            }
        }
        p.to_classes().into_iter().map(|c| c.into_iter().map(|x| names[&x]).collect()).collect()
    };
    ensure!(got.column_ranges_by_pc == ranges, "wrong-ranges", "merged ranges {:?}, expected {ranges:?} ({obs:?})", got.column_ranges_by_pc);
    ensure!(got.pc_counts == counts, "wrong-counts", "merged counts {:?}, expected {counts:?}", got.pc_counts);
    let gc: BTreeMap<u64, _> = got.equivalence_classes_by_block.iter().map(|(pc, p)| (*pc, cells(p, 24))).collect();
    ensure!(gc == classes, "wrong-classes", "merged classes {gc:?}, expected {classes:?} ({obs:?})");
    for (pc, n) in &counts {
        let _ = n;
        ensure!(got.debug_info.air_id_by_pc.contains_key(pc), "lost-debug-info", "no AIR id for pc {pc}");
    }
    // knowledge for a superblock is the knowledge of its blocks, shifted
    let sb: Vec<(u64, Vec<usize>)> = (0..tail(1, 3, 8)).map(|_| blocks[below(nb)].clone()).collect();
    let super_block: SuperBlock<tiny::Ins> = sb.iter().map(|(pc, s)| BasicBlock { start_pc: *pc, instructions: vec![tiny::Ins { kind: 0, arg: 0, branching: false, opaque: false }; s.len()] }).collect::<Vec<_>>().into();
    let fb = must("for_block", || got.for_block(&super_block))?;
    let mut want_c: BTreeSet<BTreeSet<(usize, usize)>> = BTreeSet::new();
    let mut want_r: BTreeMap<u32, BTreeMap<usize, (u32, u32)>> = BTreeMap::new();
    let mut off = 0;
    for (pc, s) in &sb {
        for c in classes.get(pc).into_iter().flatten() {
            want_c.insert(c.iter().map(|(i, k)| (i + off, *k)).collect());
        }
        for i in 0..s.len() {
            let ipc = (*pc + 4 * i as u64) as u32;
            if let Some(r) = ranges.get(&ipc) {
                want_r.insert(ipc, r.iter().cloned().enumerate().collect());
            }
        }
        off += s.len();
    }
    let n_insn = off;
    ensure!(cells(&fb.equivalence_classes, n_insn) == want_c, "wrong-block-classes", "block {sb:?}: {:?}, expected {want_c:?}", fb.equivalence_classes.to_classes());
    ensure!(fb.column_ranges_by_pc == want_r, "wrong-block-ranges", "block {sb:?}: {:?}, expected {want_r:?}", fb.column_ranges_by_pc);
    // restriction to a predicate keeps exactly the accepted cells
    let mask = sim::choose(1 << 12);
    let pred_i = |i: usize, k: usize| (mask >> ((i * 5 + k * 3) % 12)) & 1 == 0;
    let mut names: BTreeMap<BlockCell, (usize, usize)> = BTreeMap::new();
    for i in 0..n_insn {
        for k in 0..50 {
            names.insert(BlockCell::new(i, k), (i, k));
        }
    }
    let fl = must("filtered", || fb.filtered(|c| pred_i(names[c].0, names[c].1)))?;
    let want_fc: BTreeSet<BTreeSet<(usize, usize)>> = want_c
        .iter()
        .map(|c| c.iter().filter(|(i, k)| pred_i(*i, *k)).cloned().collect::<BTreeSet<_>>())
        .filter(|c| c.len() > 1)
        .collect();
    ensure!(cells(&fl.equivalence_classes, n_insn) == want_fc, "wrong-filtered-classes", "{:?}, expected {want_fc:?}", fl.equivalence_classes.to_classes());
    let pcs: Vec<u32> = sb.iter().flat_map(|(pc, s)| (0..s.len()).map(move |i| (*pc + 4 * i as u64) as u32)).collect();
    for (pc, cols) in &want_r {
        let keep: BTreeMap<usize, (u32, u32)> = cols
            .iter()
            .filter(|(k, _)| pcs.iter().enumerate().filter(|(_, p)| *p == pc).all(|(i, _)| pred_i(i, **k)))
            .map(|(k, r)| (*k, *r))
            .collect();
        let g = fl.column_ranges_by_pc.get(pc).cloned().unwrap_or_default();
        ensure!(g == keep, "wrong-filtered-ranges", "pc {pc}: {g:?}, expected {keep:?}");
    }
    // restricting once more, by another predicate, is restricting to both
    let mask2 = sim::choose(1 << 12);
    let pred_2 = |i: usize, k: usize| (mask2 >> ((i * 7 + k * 5) % 12)) & 1 == 0;
    let fl2 = must("filtered", || fl.filtered(|c| pred_2(names[c].0, names[c].1)))?;
    let want_fc2: BTreeSet<BTreeSet<(usize, usize)>> = want_fc
        .iter()
        .map(|c| c.iter().filter(|(i, k)| pred_2(*i, *k)).cloned().collect::<BTreeSet<_>>())
        .filter(|c| c.len() > 1)
        .collect();
    ensure!(cells(&fl2.equivalence_classes, n_insn) == want_fc2, "wrong-filtered-classes", "twice: {:?}, expected {want_fc2:?}", fl2.equivalence_classes.to_classes());
    for (pc, cols) in &want_r {
        let keep: BTreeMap<usize, (u32, u32)> = cols
            .iter()
            .filter(|(k, _)| pcs.iter().enumerate().filter(|(_, p)| *p == pc).all(|(i, _)| pred_i(i, **k) && pred_2(i, **k)))
            .map(|(k, r)| (*k, *r))
            .collect();
        let g = fl2.column_ranges_by_pc.get(pc).cloned().unwrap_or_default();
        ensure!(g == keep, "wrong-filtered-ranges", "pc {pc}, restricted twice: {g:?}, expected {keep:?}");
    }
    // what is handed to the builder says exactly what is left: constant cells and equal cells
    let widths: Vec<usize> = sb.iter().flat_map(|(_, s)| s.clone()).collect();
    let mut ids: Vec<u64> = (0..widths.iter().sum::<usize>() as u64).collect();
    if chance(1, 2) {
        shuffle(&mut ids);
    }
    let mut it = ids.iter().copied();
    let subs: Vec<Vec<u64>> = widths.iter().map(|w| it.by_ref().take(*w).collect()).collect();
    let id_of = |i: usize, k: usize| subs[i][k];
    let mut cols: Vec<AlgebraicReference> = ids.iter().map(|i| AlgebraicReference { name: Arc::new(format!("c{i}")), id: *i }).collect();
    shuffle(&mut cols);
    let mut consts: BTreeSet<(u64, u64)> = BTreeSet::new();
    for (i, pc) in pcs.iter().enumerate() {
        for (k, (lo, hi)) in want_r.get(pc).into_iter().flatten() {
            if lo == hi && pcs.iter().enumerate().filter(|(_, p)| *p == pc).all(|(j, _)| pred_i(j, *k) && pred_2(j, *k)) {
                consts.insert((id_of(i, *k), *lo as u64));
            }
        }
    }
    let equal: Vec<Vec<u64>> = want_fc2.iter().map(|c| c.iter().map(|(i, k)| id_of(*i, *k)).collect()).collect();
    let cons = must("generate_constraints", || {
        let m = BlockCellAlgebraicReferenceMapper::new(&subs, cols.into_iter());
        ConstraintGenerator::<TinyVm>::new(fl2, m, &super_block).generate_constraints()
    })?;
    let mut g_const: Vec<(u64, u64)> = vec![];
    let mut g_eq: Vec<Vec<u64>> = vec![];
    for c in &cons {
        let num = |n: &F| n.to_integer().try_into_u64().unwrap();
        match (&c.left, &c.right) {
            (EqualityExpression::Reference(r), EqualityExpression::Number(n)) | (EqualityExpression::Number(n), EqualityExpression::Reference(r)) => g_const.push((r.id, num(n))),
            (EqualityExpression::Reference(a), EqualityExpression::Reference(b)) => g_eq.push(vec![a.id, b.id]),
            (EqualityExpression::Number(a), EqualityExpression::Number(b)) => ensure!(a == b, "wrong-constraints", "a constraint {a} = {b} was generated"),
        }
    }
    // equal cells: the classes the equalities generate; constants: compared within classes
    let close = |eqs: &[Vec<u64>], consts: &[(u64, u64)]| {
        let mut p: Vec<u64> = (0..ids.len() as u64).collect();
        fn root(p: &mut [u64], x: u64) -> u64 {
            let mut x = x;
            while p[x as usize] != x {
                x = p[x as usize];
            }
            x
        }
        for c in eqs {
            for w in c.windows(2) {
                let (a, b) = (root(&mut p, w[0]), root(&mut p, w[1]));
                p[a.max(b) as usize] = a.min(b);
            }
        }
        let roots: Vec<u64> = (0..ids.len() as u64).map(|x| root(&mut p, x)).collect();
        let vals: BTreeSet<(u64, u64)> = consts.iter().map(|(x, v)| (roots[*x as usize], *v)).collect();
        // all classes of one value are one
        let mut low: BTreeMap<u64, u64> = BTreeMap::new();
        for (r, v) in &vals {
            low.entry(*v).or_insert(*r);
        }
        let m: BTreeMap<u64, u64> = vals.iter().map(|(r, v)| (*r, low[v])).collect();
        let roots: Vec<u64> = roots.iter().map(|r| *m.get(r).unwrap_or(r)).collect();
        let vals: BTreeSet<(u64, u64)> = consts.iter().map(|(x, v)| (roots[*x as usize], *v)).collect();
        (roots, vals)
    };
    let (a, b) = (close(&g_eq, &g_const), close(&equal, &consts.iter().copied().collect::<Vec<_>>()));
    ensure!(a == b, "wrong-constraints", "block {sb:?} with columns {subs:?}: generated constants {g_const:?} equalities {g_eq:?}, expected constants {consts:?} equal cells {equal:?}");
    sim::count_n("probe.generated_constraints", cons.len() as u64);
    // the execution-count threshold drops exactly the rarely executed knowledge
    let big = pick(&[0u64, 97, 98, 99, 100, 1000]);
    got.pc_counts.values_mut().for_each(|c| *c += big);
    let pc_counts = got.pc_counts.clone();
    const VAR: &str = "POWDR_OP_EXECUTION_COUNT_THRESHOLD";
    let cut = match below(4) {
        0 => {
            std::env::remove_var(VAR);
            100
        }
        1 => {
            sim::count("fault.bad_environment");
            std::env::set_var(VAR, pick(&["", "x", "-1", "18446744073709551616"]));
            100
        }
        _ => {
            let c = big + below(5) as u64;
            std::env::set_var(VAR, c.to_string());
            c
        }
    };
    let th = must("threshold", || got.apply_pc_threshold())?;
    std::env::remove_var(VAR);
    for (pc, n) in &pc_counts {
        ensure!(th.column_ranges_by_pc.get(pc) == ranges.get(pc).filter(|_| *n >= cut), "wrong-threshold", "pc {pc} executed {n} times, threshold {cut}");
    }
    for pc in classes.keys() {
        let n = pc_counts[&(*pc as u32)];
        ensure!(th.equivalence_classes_by_block.get(pc).map(|p| cells(p, 24)).as_ref() == classes.get(pc).filter(|_| n >= cut), "wrong-threshold", "block {pc} executed {n} times, threshold {cut}");
    }
    sim::event("emp", hash(&classes));
    let nontrivial = nobs > 1 && classes.values().any(|c| !c.is_empty());
    let _ = DebugInfo::default();
    Ok(Outcome { nontrivial, signature: sim::log_hash(), sample: format!("{nobs} observations of {nb} blocks, superblock of {} blocks", sb.len()) })
}
