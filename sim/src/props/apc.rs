//! Cases shared by the properties about built precompiles: a (super)block of the
//! simulated zkVM, executions of it, and what was learned from them.
use crate::gen::*;
use crate::vm::adapter::*;
use crate::vm::isa::*;
use crate::vm::mach::*;
use crate::vm::{self, gen as vg};
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, DebugInfo, EmpiricalConstraints, Partition};
use powdr_autoprecompiles::export::ExportOptions;
use rayon_core::sim;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Exec {
    pub start: State,
    pub rows: Vec<Vec<u64>>,
    pub end: State,
}
pub struct Case {
    pub blocks: Vec<(u32, Vec<Ins>)>,
    pub execs: Vec<Exec>,
    /// How many of `execs` were observed when the constraints were learned.
    pub sampled: usize,
    pub learned: bool,
    pub restricted: bool,
}
impl Case {
    pub fn flat(&self) -> Vec<(u32, Ins)> {
        self.blocks.iter().flat_map(|(s, b)| b.iter().enumerate().map(move |(i, x)| (s + 4 * i as u32, x.clone()))).collect()
    }
    pub fn superblock(&self) -> SuperBlock<Ins> {
        self.blocks.iter().map(|(s, b)| BasicBlock { start_pc: *s as u64, instructions: b.clone() }).collect::<Vec<_>>().into()
    }
    pub fn show(&self) -> String {
        self.flat().iter().map(|(p, i)| format!("{p}: {i}")).collect::<Vec<_>>().join("; ") + if self.learned { " [learned]" } else { "" }
    }
    pub fn shape(&self) -> u64 {
        hash(&(self.flat().iter().map(|(_, i)| i.clone()).collect::<Vec<_>>(), self.blocks.iter().map(|b| b.1.len()).collect::<Vec<_>>(), self.learned))
    }
}
/// Runs the block from `s`; None when the execution leaves it or an access is illegal.
pub fn run_flat(s: &State, flat: &[(u32, Ins)]) -> Option<Exec> {
    let mut c = s.clone();
    let mut rows = vec![];
    for (pc, i) in flat {
        if c.pc != *pc {
            return None;
        }
        rows.push(step(&mut c, i, true).ok()?);
    }
    Some(Exec { start: s.clone(), rows, end: c })
}
fn try_straight(m: &vg::Mix, s: &mut State) -> Ins {
    for _ in 0..6 {
        let i = m.straight();
        let mut c = s.clone();
        if step(&mut c, &i, false).is_ok() {
            *s = c;
            return i;
        }
    }
    let i = alu_i(512, m.regs[0], m.regs[0], 1);
    step(s, &i, false).unwrap();
    i
}
pub struct Opts {
    pub max_len: usize,
    pub superblocks: bool,
    pub learn: bool,
    pub execs: usize,
}
/// Can control go on at `pc` without running into the middle of code already laid out?
fn room(blocks: &[(u32, Vec<Ins>)], pc: u32) -> bool {
    blocks.iter().any(|b| b.0 == pc) || blocks.iter().all(|(s, v)| pc + 100 < *s || pc >= s + 4 * v.len() as u32)
}
pub fn draw_case(o: &Opts) -> Case {
    let m = vg::mix();
    let start = match below(3) {
        0 => 0x20_0000u32,
        1 => 4 * range(2, 2000) as u32,
        _ => (1 << 29) - 4 * range(400, 4000) as u32,
    };
    let s0 = vg::state(&m, start);
    let mut s = s0.clone();
    let nb = if o.superblocks && chance(1, 3) { range(2, 3) } else { 1 };
    let mut blocks: Vec<(u32, Vec<Ins>)> = vec![];
    for b in 0..nb {
        let last = b + 1 == nb;
        // a block that was already laid out runs again
        if let Some((st, v)) = blocks.iter().find(|x| x.0 == s.pc).cloned() {
            let mut c = s.clone();
            if v.iter().all(|i| step(&mut c, i, false).is_ok()) && room(&blocks, c.pc) {
                blocks.push((st, v));
                s = c;
                continue;
            }
            break;
        }
        let st = s.pc;
        if !room(&blocks, st) {
            break;
        }
        let top = (o.max_len / nb).max(1);
        let len = if chance(1, 2) { range(1, top) } else { range(1, top).min(range(1, top)) };
        let mut v = vec![];
        for _ in 0..len {
            let i = try_straight(&m, &mut s);
            v.push(i);
        }
        if chance(2, 3) {
            let back = st as i64 - s.pc as i64;
            let imm = match below(3) {
                0 if !last => back,
                1 => 8 + 4 * below(40) as i64,
                _ => 4 * (below(64) as i64 - 32),
            };
            let imm = if imm == 0 { 8 } else { imm };
            for _ in 0..4 {
                let i = m.ending(imm);
                let mut c = s.clone();
                if step(&mut c, &i, false).is_ok() && c.pc % 4 == 0 && c.pc < 1 << 29 && c.pc > 0 && (last || {
                    let mut all = blocks.clone();
                    let mut w = v.clone();
                    w.push(i.clone());
                    all.push((st, w));
                    room(&all, c.pc)
                }) {
                    s = c;
                    v.push(i);
                    break;
                }
            }
        }
        blocks.push((st, v));
    }
    let mut case = Case { blocks, execs: vec![], sampled: 0, learned: false, restricted: false };
    let flat = case.flat();
    let first = run_flat(&s0, &flat).expect("harness: block was generated on this state");
    case.execs.push(first);
    let mut fuel = o.execs * 2;
    while case.execs.len() < o.execs && fuel > 0 {
        fuel -= 1;
        let mut v = s0.clone();
        let dt = below(5000) as u32;
        v.ts += dt;
        let keys: Vec<Addr> = v.cells.keys().copied().collect();
        let rate = pick(&[2u64, 1, 4]);
        for k in keys {
            let c = v.cells.get_mut(&k).unwrap();
            if k != (1, 0) && chance(1, rate) {
                let addr = (0x1000 - 64..0x1000 + 128).contains(&c.0);
                if !addr {
                    c.0 = match below(4) {
                        0 => c.0 ^ (1 << below(32)),
                        1 => vg::word() & 0xff,
                        _ => vg::word(),
                    };
                } else if k.0 == 1 && chance(1, 2) {
                    c.0 = 0x1000 + 4 * below(16) as u32;
                }
            }
            if chance(1, 2) {
                c.1 = sim::choose(v.ts as u64) as u32;
            }
        }
        if let Some(e) = run_flat(&v, &flat) {
            case.execs.push(e);
        }
    }
    case.sampled = case.execs.len();
    if o.learn && chance(1, 3) {
        case.learned = true;
        case.sampled = range(1, case.execs.len());
        case.restricted = chance(1, 2);
    }
    case
}
/// The rows of the instruction AIRs must be accepted by those AIRs (a check of the harness itself).
pub fn self_check(c: &Case) {
    let airs = air_machs();
    for e in &c.execs {
        for ((pc, i), r) in c.flat().iter().zip(&e.rows) {
            let m = &airs[i.air()];
            if let Err(x) = m.check(r) {
                panic!("harness: {i}: {x}");
            }
            let pcl = m.bus.iter().find(|b| b.id == PC).expect("pc lookup");
            let got: Vec<u64> = pcl.args.iter().map(|a| a.eval(r)).collect();
            assert!(pcl.mult.eval(r) == 1 && got == i.lookup_row(*pc as u64), "harness: pc lookup of {i}: {got:?}");
        }
        let net = net_of_rows(c, e);
        let mut exp = Net::new();
        effect(&e.start, &e.end, &mut exp);
        assert!(net == exp, "harness: net effect {} vs {}", show_net(&net), show_net(&exp));
    }
}
pub fn net_of_rows(c: &Case, e: &Exec) -> Net {
    let mut net = Net::new();
    for ((_, i), r) in c.flat().iter().zip(&e.rows) {
        air_machs()[i.air()].net(r, &mut net);
    }
    net
}
/// The bus messages that describe going from state `a` to state `b`.
pub fn effect(a: &State, b: &State, n: &mut Net) {
    let mut put = |bus: u64, k: Vec<u64>, m: u64| {
        let e = n.entry((bus, k.clone())).or_insert(0);
        *e = vm::add(*e, m);
        if *e == 0 {
            n.remove(&(bus, k));
        }
    };
    put(EXEC, vec![a.pc as u64, a.ts as u64], vm::P - 1);
    put(EXEC, vec![b.pc as u64, b.ts as u64], 1);
    let cell = |k: &Addr, c: (u32, u32)| {
        let mut v = vec![k.0 as u64, k.1 as u64];
        v.extend(c.0.to_le_bytes().map(|x| x as u64));
        v.push(c.1 as u64);
        v
    };
    for (k, c) in &b.cells {
        let old = a.cells.get(k).copied().unwrap_or((0, 0));
        if old.1 != c.1 {
            put(MEM, cell(k, old), vm::P - 1);
            put(MEM, cell(k, *c), 1);
        }
    }
}
/// What a profiling run sees of one executed instruction.
pub struct Seen<'a> {
    pub pc: u32,
    pub air: usize,
    pub row: &'a [u64],
    pub names: Vec<String>,
}
/// What a profiling run over one execution records.
pub fn learn(c: &Case, e: &Exec) -> EmpiricalConstraints {
    let at: Vec<Seen> = c.flat().iter().zip(&e.rows).map(|((pc, i), row)| Seen { pc: *pc, air: i.air(), row, names: vm::air::airs()[i.air()].cols.clone() }).collect();
    let lens: Vec<(u64, usize)> = c.blocks.iter().map(|b| (b.0 as u64, b.1.len())).collect();
    learn_rows(&at, &lens)
}
pub fn learn_rows(seen: &[Seen], blocks: &[(u64, usize)]) -> EmpiricalConstraints {
    let mut r = EmpiricalConstraints::default();
    for x in seen {
        let ranges = r.column_ranges_by_pc.entry(x.pc).or_insert_with(|| x.row.iter().map(|v| (*v as u32, *v as u32)).collect());
        for (q, v) in ranges.iter_mut().zip(x.row) {
            q.0 = q.0.min(*v as u32);
            q.1 = q.1.max(*v as u32);
        }
        *r.pc_counts.entry(x.pc).or_insert(0) += 1;
        let mut d = DebugInfo::default();
        d.air_id_by_pc.insert(x.pc, x.air);
        d.column_names_by_air_id.insert(x.air, x.names.clone());
        r.debug_info.combine_with(d);
    }
    let mut at = 0;
    for (st, len) in blocks {
        let mut by: BTreeMap<u64, Vec<BlockCell>> = BTreeMap::new();
        for i in 0..*len {
            for (col, v) in seen[at + i].row.iter().enumerate() {
                by.entry(*v).or_default().push(BlockCell::new(i, col));
            }
        }
        at += len;
        let p: Partition<BlockCell> = by.into_values().collect();
        let p = match r.equivalence_classes_by_block.remove(st) {
            Some(q) => Partition::intersect_many([q, p]),
            None => p,
        };
        r.equivalence_classes_by_block.insert(*st, p);
    }
    r
}
pub fn learn_all(c: &Case) -> EmpiricalConstraints {
    if !c.learned {
        return EmpiricalConstraints::default();
    }
    let mut all = learn(c, &c.execs[0]);
    for e in &c.execs[1..c.sampled] {
        all.combine_with(learn(c, e));
    }
    all
}
/// Executions the precompile must be able to represent.
pub fn covered(c: &Case) -> &[Exec] {
    if c.learned {
        &c.execs[..c.sampled]
    } else {
        &c.execs
    }
}
/// Builds the precompile of the case with the code under test.
pub fn build_with(c: &Case, bound: powdr_autoprecompiles::DegreeBound) -> Result<SimApc, String> {
    std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", if c.restricted { "1" } else { "0" });
    let emp = learn_all(c);
    powdr_autoprecompiles::build::<SimVm>(c.superblock(), vm_config(), bound, ExportOptions::default(), &emp).map_err(|e| format!("{e:?}"))
}
