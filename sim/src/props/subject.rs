//! What the properties about built precompiles are checked on: a block of the simulated
//! RISC-V zkVM, or a block of a zkVM with a random instruction set.
use super::apc::{self, Case, Opts};
use super::p18::Pipe;
use crate::gen::*;
use crate::vm::adv::Rng;
use crate::vm::isa::Ins;
use crate::vm::mach::*;
use crate::vm::synth::{Judged as J, Sampler, Sys};
use crate::vm::{synvm, P};
use powdr_autoprecompiles::blocks::{BasicBlock, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{DegreeBound, Substitution};
use powdr_number::BabyBearField as F;
use rayon_core::sim;

/// A built precompile.
pub struct Built {
    pub machine: SymbolicMachine<F>,
    pub subs: Vec<Vec<Substitution>>,
    pub json: String,
}
pub enum Judged {
    /// No effect at all.
    Inert,
    /// The initial state it claims cannot occur.
    Impossible(&'static str),
    /// Runs the block.
    Good,
    Bad(String),
}
pub trait Subject: Sync {
    fn show(&self) -> String;
    fn shape(&self) -> u64;
    fn build(&self, bound: DegreeBound, json: bool) -> Result<Built, String>;
    fn execs(&self) -> usize;
    /// How many executions (the first ones) the precompile must be able to represent.
    fn covered(&self) -> usize;
    /// Rows of the instruction AIRs.
    fn rows(&self, exec: usize) -> Vec<Vec<u64>>;
    fn effect(&self, exec: usize) -> Net;
    /// The part of the program table the block occupies.
    fn program(&self) -> Vec<Vec<u64>>;
    /// Is there an execution of the block with this effect?
    fn judge(&self, net: &Net) -> Judged;
    fn self_check(&self);
    fn columns(&self) -> u64;
    fn size(&self) -> usize;
    fn blocks(&self) -> usize;
    fn learned(&self) -> bool;
    fn restricted(&self) -> bool;
    /// The verifier of each instruction's AIR.
    fn machs(&self) -> Vec<Mach>;
    /// What profiling the first `n` executions learns, as run-time literals and conditions.
    fn literals(&self, n: usize, bound: DegreeBound, dir: &std::path::Path) -> Result<Pipe, String>;
}
fn flag(restricted: bool) {
    std::env::set_var("POWDR_RESTRICTED_OPTIMISTIC_PRECOMPILES", if restricted { "1" } else { "0" });
}
impl Subject for Case {
    fn show(&self) -> String {
        Case::show(self)
    }
    fn shape(&self) -> u64 {
        Case::shape(self)
    }
    fn build(&self, bound: DegreeBound, json: bool) -> Result<Built, String> {
        apc::build_with(self, bound).map(|a| Built { json: if json { serde_json::to_value(&a).unwrap().to_string() } else { String::new() }, machine: a.machine, subs: a.subs })
    }
    fn execs(&self) -> usize {
        self.execs.len()
    }
    fn covered(&self) -> usize {
        apc::covered(self).len()
    }
    fn rows(&self, exec: usize) -> Vec<Vec<u64>> {
        self.execs[exec].rows.clone()
    }
    fn effect(&self, exec: usize) -> Net {
        apc::net_of_rows(self, &self.execs[exec])
    }
    fn program(&self) -> Vec<Vec<u64>> {
        self.flat().iter().map(|(pc, i)| i.lookup_row(*pc as u64)).collect()
    }
    fn judge(&self, net: &Net) -> Judged {
        let flat: Vec<(u32, Ins)> = self.flat();
        super::p03::judge(&flat, net)
    }
    fn self_check(&self) {
        apc::self_check(self)
    }
    fn columns(&self) -> u64 {
        self.execs[0].rows.iter().map(|r| r.len() as u64).sum()
    }
    fn size(&self) -> usize {
        self.flat().len()
    }
    fn blocks(&self) -> usize {
        self.blocks.len()
    }
    fn learned(&self) -> bool {
        self.learned
    }
    fn restricted(&self) -> bool {
        self.restricted
    }
    fn machs(&self) -> Vec<Mach> {
        self.flat().iter().map(|(_, i)| Mach::new(&crate::vm::air::airs()[i.air()].machine).unwrap()).collect()
    }
    fn literals(&self, n: usize, bound: DegreeBound, dir: &std::path::Path) -> Result<Pipe, String> {
        flag(false);
        let mut emp = apc::learn(self, &self.execs[0]);
        for e in &self.execs[1..n] {
            emp.combine_with(apc::learn(self, e));
        }
        super::p18::pipeline::<crate::vm::adapter::SimVm>(&self.superblock(), crate::vm::adapter::vm_config, bound, &emp, dir)
    }
}
/// A block of the zkVM with a random instruction set.
pub struct Syn {
    sys: Sys,
    orig: Mach,
    handler: synvm::Handler,
    ins: Vec<(u64, synvm::Ins)>,
    rows: Vec<Vec<u64>>,
    sampled: usize,
    learned: bool,
    restricted: bool,
}
impl Syn {
    fn draw(o: &Opts, gadgets: usize) -> Option<Syn> {
        let sys = Sys::draw_with(o.max_len, gadgets, true);
        let orig = Mach::new(&sys.machine()).unwrap();
        let mut r = Rng(sim::choose(1 << 32));
        let mut rows = vec![];
        sim::muted(|| {
            for _ in 0..80 {
                if rows.len() >= o.execs {
                    break;
                }
                let row = sys.run(&mut Sampler(&mut r)).unwrap();
                let w = sys.row_of(&orig, &row);
                if orig.check(&w).is_ok() {
                    let mut net = Net::new();
                    orig.net(&w, &mut net);
                    if net.iter().filter(|((b, _), m)| *b == EXEC && **m > P / 2).count() == 1 {
                        rows.push(row);
                    }
                }
            }
        });
        if rows.is_empty() {
            return None;
        }
        let handler = synvm::Handler::new(&sys);
        let ins = sys.cuts.iter().enumerate().map(|(k, c)| (c.pc, synvm::Ins { kind: k, args: c.args.iter().map(|a| a.1).collect() })).collect();
        let (mut sampled, mut learned, mut restricted) = (rows.len(), false, false);
        if o.learn && chance(1, 4) {
            learned = true;
            sampled = range(1, rows.len());
            restricted = chance(1, 2);
        }
        Some(Syn { sys, orig, handler, ins, rows, sampled, learned, restricted })
    }
    fn layout(&self) -> Vec<(u64, Vec<synvm::Ins>)> {
        let mut v: Vec<(u64, Vec<synvm::Ins>)> = vec![];
        for ((pc, i), c) in self.ins.iter().zip(&self.sys.cuts) {
            if c.first {
                v.push((*pc, vec![]));
            }
            v.last_mut().unwrap().1.push(i.clone());
        }
        v
    }
    fn learn(&self) -> EmpiricalConstraints {
        if !self.learned {
            return EmpiricalConstraints::default();
        }
        self.learn_from(self.sampled)
    }
    fn learn_from(&self, n: usize) -> EmpiricalConstraints {
        let mut all: Option<EmpiricalConstraints> = None;
        let lens: Vec<(u64, usize)> = self.layout().iter().map(|b| (b.0, b.1.len())).collect();
        for e in 0..n {
            let rows = self.rows(e);
            let at: Vec<apc::Seen> = self.ins.iter().zip(&rows).map(|((pc, i), r)| apc::Seen { pc: *pc as u32, air: i.kind, row: r, names: (0..r.len()).map(|k| format!("c{k}")).collect() }).collect();
            let x = apc::learn_rows(&at, &lens);
            match &mut all {
                None => all = Some(x),
                Some(a) => a.combine_with(x),
            }
        }
        all.unwrap()
    }
}
impl Subject for Syn {
    fn show(&self) -> String {
        let mut s = String::new();
        for (i, (pc, x)) in self.ins.iter().enumerate() {
            s += &format!("{}{pc}: {x}\n{}\n", if self.sys.cuts[i].first { "block\n" } else { "" }, self.handler.airs[i]);
        }
        s + if self.learned { "[learned]" } else { "" }
    }
    fn shape(&self) -> u64 {
        let mut g = self.sys.names.clone();
        g.sort();
        g.dedup();
        hash(&(g, self.sys.bus.len(), self.ins.len(), self.learned))
    }
    fn build(&self, bound: DegreeBound, json: bool) -> Result<Built, String> {
        flag(self.restricted);
        let emp = self.learn();
        let block: SuperBlock<synvm::Ins> = self.layout().into_iter().map(|(start_pc, instructions)| BasicBlock { start_pc, instructions }).collect::<Vec<_>>().into();
        if std::env::var("SYN_DUMP").is_ok() {
            eprintln!("learned {:#?}", emp);
        }
        let a = powdr_autoprecompiles::build::<synvm::SynVm>(block, synvm::vm_config(&self.handler), bound, ExportOptions::default(), &emp).map_err(|e| format!("{e:?}"))?;
        if std::env::var("SYN_DUMP").is_ok() {
            eprintln!("{}", a.machine);
        }
        Ok(Built { json: if json { serde_json::to_value(&a).unwrap().to_string() } else { String::new() }, machine: a.machine, subs: a.subs })
    }
    fn execs(&self) -> usize {
        self.rows.len()
    }
    fn covered(&self) -> usize {
        self.sampled
    }
    fn rows(&self, exec: usize) -> Vec<Vec<u64>> {
        self.handler.cols.iter().map(|c| c.iter().map(|i| self.rows[exec][*i]).collect()).collect()
    }
    fn effect(&self, exec: usize) -> Net {
        let mut net = Net::new();
        self.orig.net(&self.sys.row_of(&self.orig, &self.rows[exec]), &mut net);
        net
    }
    fn program(&self) -> Vec<Vec<u64>> {
        self.ins.iter().map(|(pc, i)| i.lookup_row(*pc)).collect()
    }
    fn judge(&self, net: &Net) -> Judged {
        if net.is_empty() {
            return Judged::Inert;
        }
        match self.sys.judge(&self.orig, net) {
            J::Good => Judged::Good,
            J::Impossible => Judged::Impossible("probe.forged_impossible_input"),
            J::Bad(x) => Judged::Bad(x),
        }
    }
    fn self_check(&self) {
        for e in 0..self.rows.len() {
            let mut net = Net::new();
            for ((k, r), want) in self.rows(e).iter().enumerate().zip(self.program()) {
                let m = Mach::new(&self.handler.airs[k]).unwrap();
                if let Err(x) = m.check(r) {
                    panic!("harness: drawn instruction {k}: {x}");
                }
                m.net(r, &mut net);
                let b = m.bus.iter().find(|b| b.id == PC).unwrap();
                let got: Vec<u64> = b.args.iter().map(|a| a.eval(r)).collect();
                assert!(got == want, "harness: lookup {got:?}");
            }
            assert!(net == self.effect(e), "harness: net effect of drawn instructions");
        }
    }
    fn columns(&self) -> u64 {
        self.handler.cols.iter().map(|c| c.len() as u64).sum()
    }
    fn size(&self) -> usize {
        self.ins.len()
    }
    fn blocks(&self) -> usize {
        self.sys.cuts.iter().filter(|c| c.first).count()
    }
    fn learned(&self) -> bool {
        self.learned
    }
    fn restricted(&self) -> bool {
        self.restricted
    }
    fn machs(&self) -> Vec<Mach> {
        self.handler.airs.iter().map(|a| Mach::new(a).unwrap()).collect()
    }
    fn literals(&self, n: usize, bound: DegreeBound, dir: &std::path::Path) -> Result<Pipe, String> {
        flag(false);
        let emp = self.learn_from(n);
        let block: SuperBlock<synvm::Ins> = self.layout().into_iter().map(|(start_pc, instructions)| BasicBlock { start_pc, instructions }).collect::<Vec<_>>().into();
        super::p18::pipeline::<synvm::SynVm>(&block, || synvm::vm_config(&self.handler), bound, &emp, dir)
    }
}
/// Draws a subject: one in `one_in` is a block of the RISC-V zkVM.
pub fn draw(one_in: u64, risc: &Opts, syn: &Opts, gadgets: usize) -> Option<Box<dyn Subject>> {
    if chance(1, one_in) {
        sim::count("probe.riscv_block");
        Some(Box::new(apc::draw_case(risc)))
    } else {
        sim::count("probe.random_instruction_set");
        Syn::draw(syn, gadgets).map(|s| Box::new(s) as Box<dyn Subject>)
    }
}
/// The precompile's row for an execution, as the trace writer fills it.
pub fn fill(apc: &Built, m: &Mach, rows: &[Vec<u64>]) -> Result<Vec<u64>, String> {
    let mut row = vec![0u64; m.ids.len()];
    let mut set = vec![false; m.ids.len()];
    if apc.subs.len() != rows.len() {
        return Err(format!("{} substitution lists for {} instructions", apc.subs.len(), rows.len()));
    }
    for (s, r) in apc.subs.iter().zip(rows) {
        for x in s {
            let Some(c) = m.ix.get(&x.apc_poly_id) else {
                return Err(format!("substitution into column {} which the machine does not have", x.apc_poly_id));
            };
            let Some(v) = r.get(x.original_poly_index) else {
                return Err(format!("substitution from column {} of an AIR with {} columns", x.original_poly_index, r.len()));
            };
            if set[*c] {
                return Err(format!("column {} is filled twice", m.names[*c]));
            }
            row[*c] = *v;
            set[*c] = true;
        }
    }
    for (c, _) in &m.derived {
        set[*c] = true;
    }
    if let Some(c) = set.iter().position(|s| !*s) {
        return Err(format!("no rule to fill column {}", m.names[c]));
    }
    m.derive(&mut row);
    Ok(row)
}
