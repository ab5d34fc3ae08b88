use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::tiny::*;
use crate::vm::walk;
use powdr_autoprecompiles::blocks::{collect_basic_blocks, detect_superblocks};
use powdr_autoprecompiles::PowdrConfig;
use rayon_core::sim;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "P07",
    run,
    quick_runs: 60_000,
    warm: 4,
    thorough_runs: 1_500_000,
    quick_cap_s: 60,
    rule: "runs whose execution contains a superblock of at least two blocks and a run that was interrupted; counted once per (hash of the detected blocks and counts, schedule)",
    real: "autoprecompiles blocks::{collect_basic_blocks, detect_superblocks}; rayon's parallel iterators",
    stub: "rayon's thread pool (deterministic scheduler), the program (simulated instruction set) and its execution (random walk over its control flow)",
    assumptions: &["the execution starts and ends at block boundaries and only jumps to declared jump targets"],
};

fn run(cx: &Cx) -> Res {
    let w = walk::program(24, 4, &[0, 0x200, 0x20_0000, 0xffff_0000, 1 << 33]);
    // block detection against its definition
    let got = must("blocks", || collect_basic_blocks::<TinyVm>(&w.prog, &w.targets))?;
    let want: Vec<(u64, &[Ins])> = w.blocks().iter().map(|&(a, b)| (w.pc(a), &w.prog.ins[a..b])).collect();
    let g: Vec<(u64, &[Ins])> = got.iter().map(|b| (b.start_pc, &b.instructions[..])).collect();
    ensure!(g == want, "wrong-blocks", "program {:?} targets {:?}: blocks {g:?}, expected {want:?}", w.prog, w.targets);
    for b in &got {
        ensure!(b.pcs().eq((0..b.instructions.len()).map(|i| b.start_pc + 4 * i as u64)), "wrong-pcs", "pcs of block {}", b.start_pc);
    }
    // superblocks
    let steps = w.walk(if cx.thorough { 400 } else if chance(1, 250) { 1500 } else { 80 });
    let pcs = w.pcs(&steps);
    let bl = w.blocks();
    let mut runs: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    let mut cur = vec![];
    let mut interrupted = false;
    for &k in &steps {
        if bl[k].1 - bl[k].0 == 1 {
            if !cur.is_empty() {
                *runs.entry(std::mem::take(&mut cur)).or_default() += 1;
                interrupted = true;
            }
        } else {
            cur.push(w.pc(bl[k].0));
        }
    }
    if !cur.is_empty() {
        *runs.entry(cur).or_default() += 1;
    }
    let max_bb = tail(1, 5, 12) as u8;
    let max_ins = if chance(1, 2) { None } else { Some(tail(1, 12, 80) as u32) };
    let cutoff = if chance(1, 2) { None } else { Some(tail(0, 6, 300) as u32) };
    let cfg = PowdrConfig::new(10, 0, crate::vm::adapter::BOUND).with_superblocks(max_bb, max_ins, cutoff);
    let len_of: BTreeMap<u64, usize> = bl.iter().map(|&(a, b)| (w.pc(a), b - a)).collect();
    let mut counts: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
    for r in runs.keys() {
        for n in 1..=(max_bb as usize).min(r.len()) {
            for s in 0..=r.len() - n {
                counts.entry(r[s..s + n].to_vec()).or_default();
            }
        }
    }
    for (sb, c) in counts.iter_mut() {
        *c = runs.iter().map(|(r, m)| walk::occurrences(r, sb).len() as u32 * m).sum();
    }
    let full = counts.len();
    counts.retain(|sb, c| *c >= cutoff.unwrap_or(1) && sb.iter().map(|p| len_of[p]).sum::<usize>() <= max_ins.unwrap_or(u32::MAX) as usize);
    if counts.len() < full {
        sim::count("probe.superblocks_filtered");
    }
    let mut input = got.clone();
    shuffle(&mut input);
    let mut prev = None;
    for _ in 0..2 {
        let env = draw_env();
        let (i2, p2, c2) = (input.clone(), &pcs, &cfg);
        let res = match under(env, move || detect_superblocks(c2, p2, i2)) {
            Ok(r) => r,
            Err(m) => return violation("panic-superblocks", m),
        };
        let mut gr: BTreeMap<Vec<u64>, u32> = BTreeMap::new();
        for (r, c) in &res.execution_bb_runs {
            *gr.entry(r.0.clone()).or_default() += c;
        }
        ensure!(gr == runs, "wrong-runs", "execution {pcs:?}: runs {gr:?}, expected {runs:?}");
        let list: Vec<(Vec<u64>, u32)> = res.blocks.iter().map(|b| (b.block.start_pcs(), b.count)).collect();
        let m: BTreeMap<Vec<u64>, u32> = list.iter().cloned().collect();
        ensure!(m.len() == list.len(), "duplicate-superblock", "{list:?}");
        ensure!(m == counts, "wrong-superblocks", "execution {pcs:?} max_bb {max_bb} max_ins {max_ins:?} cutoff {cutoff:?} ({env:?}): {m:?}, expected {counts:?}");
        for b in &res.blocks {
            let want: Vec<(u64, Ins)> = b.block.start_pcs().iter().flat_map(|p| {
                let i = ((p - w.prog.base) / 4) as usize;
                (i..i + len_of[p]).map(|i| (w.pc(i), w.prog.ins[i].clone())).collect::<Vec<_>>()
            }).collect();
            let g: Vec<(u64, Ins)> = b.block.instructions().map(|(p, i)| (p, i.clone())).collect();
            ensure!(g == want, "wrong-superblock-content", "superblock {:?}: {g:?}, expected {want:?}", b.block.start_pcs());
            ensure!(b.block.pcs().eq(want.iter().map(|x| x.0)), "wrong-superblock-content", "pcs of superblock {:?}", b.block.start_pcs());
            let mut off = 0;
            let idx: Vec<(usize, u64)> = b.block.start_pcs().iter().map(|p| { let r = (off, *p); off += len_of[p]; r }).collect();
            ensure!(b.block.instruction_indexed_start_pcs() == idx, "wrong-superblock-content", "indexed start pcs of {:?}: {:?}", b.block.start_pcs(), b.block.instruction_indexed_start_pcs());
            let i3 = b.block.clone();
            let par: Vec<(u64, Ins)> = {
                use rayon::prelude::*;
                i3.par_instructions().map(|(p, i)| (p, i.clone())).collect()
            };
            ensure!(par == want, "wrong-superblock-content", "parallel instructions of {:?}", b.block.start_pcs());
        }
        if let Some(p) = prev.replace(list.clone()) {
            ensure!(p == list, "unstable-order", "the order of superblocks differs between two executions: {p:?} / {list:?}");
        }
        sim::event("sb", hash(&list));
    }
    Ok(Outcome {
        nontrivial: interrupted && counts.keys().any(|s| s.len() > 1),
        signature: sim::log_hash(),
        sample: format!("{} instructions, {} blocks, {} executed blocks, {} runs, {} superblocks up to {max_bb}", w.prog.ins.len(), got.len(), steps.len(), runs.len(), counts.len()),
    })
}
