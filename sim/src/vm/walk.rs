//! Random programs of the small machine and random walks through them.
use super::tiny::{Ins, Prog};
use crate::gen::*;
use rayon_core::sim;
use std::collections::BTreeSet;

pub struct World {
    pub prog: Prog,
    pub targets: BTreeSet<u64>,
}
pub fn program(max_len: usize, kinds: usize, bases: &[u64]) -> World {
    let n = tail(1, max_len, 4 * max_len);
    let base = pick(bases);
    let bd = pick(&[3u64, 2, 6, 12, 60]);
    let od = pick(&[8u64, 8, 8, 40]);
    let mut ins: Vec<Ins> = (0..n)
        .map(|_| Ins { kind: below(kinds), arg: sim::choose(4) as u32, branching: chance(1, bd), opaque: chance(1, od) })
        .collect();
    if !chance(1, 6) {
        ins[n - 1].branching = true;
    }
    let mut targets = BTreeSet::new();
    for _ in 0..tail(0, 5, 12) {
        // a target may lie outside of the program or off the instruction grid
        match below(6) {
            0..=4 => targets.insert(base + 4 * below(n) as u64),
            _ => targets.insert(base + below(4 * n + 9) as u64),
        };
    }
    World { prog: Prog { base, ins }, targets }
}
impl World {
    /// Indices at which a block starts, by definition.
    pub fn starts(&self) -> Vec<usize> {
        let p = &self.prog;
        (0..p.ins.len())
            .filter(|&i| i == 0 || p.ins[i].opaque || p.ins[i - 1].opaque || p.ins[i - 1].branching || self.targets.contains(&self.pc(i)))
            .collect()
    }
    pub fn pc(&self, i: usize) -> u64 {
        self.prog.base + 4 * i as u64
    }
    /// (start index, end index) of every block
    pub fn blocks(&self) -> Vec<(usize, usize)> {
        let s = self.starts();
        (0..s.len()).map(|k| (s[k], s.get(k + 1).copied().unwrap_or(self.prog.ins.len()))).collect()
    }
    /// Block indices of an execution: a block falls through or, if it ends in a
    /// branch, continues at a jump target; the walk may stop or start anywhere on
    /// block borders.
    pub fn walk(&self, max: usize) -> Vec<usize> {
        let bl = self.blocks();
        let tg: Vec<usize> = (0..bl.len()).filter(|&k| self.targets.contains(&self.pc(bl[k].0))).collect();
        // control leaves the program where there is nowhere to go
        let mut cur = if chance(1, 4) { below(bl.len()) } else { 0 };
        let mut out = vec![];
        for _ in 0..range(1, max) {
            out.push(cur);
            let last = &self.prog.ins[bl[cur].1 - 1];
            if last.branching && !tg.is_empty() && !chance(1, 3) {
                cur = tg[below(tg.len())];
            } else if cur + 1 < bl.len() {
                cur += 1;
            } else if last.branching && !tg.is_empty() {
                cur = tg[below(tg.len())];
            } else {
                break;
            }
        }
        out
    }
    pub fn pcs(&self, walk: &[usize]) -> Vec<u64> {
        let bl = self.blocks();
        walk.iter().flat_map(|&k| (bl[k].0..bl[k].1).map(|i| self.pc(i)).collect::<Vec<_>>()).collect()
    }
}
/// Non-overlapping left-to-right occurrences.
pub fn occurrences(run: &[u64], needle: &[u64]) -> Vec<usize> {
    let mut r = vec![];
    let mut i = 0;
    while i + needle.len() <= run.len() {
        if run[i..i + needle.len()] == *needle {
            r.push(i);
            i += needle.len();
        } else {
            i += 1;
        }
    }
    r
}
