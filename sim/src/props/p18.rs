use super::apc::Opts;
use super::subject;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::BOUND;
use crate::vm::mach::*;
use crate::vm::P;
use powdr_autoprecompiles::adapter::{Adapter, AdapterVmConfig};
use powdr_autoprecompiles::blocks::SuperBlock;
use powdr_autoprecompiles::empirical_constraints::{ConstraintGenerator, EmpiricalConstraints, EqualityExpression};
use powdr_autoprecompiles::execution::*;
use powdr_autoprecompiles::export::{ExportLevel, ExportOptions};
use powdr_autoprecompiles::optimistic::algebraic_references::BlockCellAlgebraicReferenceMapper;
use powdr_autoprecompiles::optimistic::execution_constraint_generator::generate_execution_constraints;
use powdr_autoprecompiles::optimistic::execution_literals::optimistic_literals;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{DegreeBound, Substitution};
use powdr_number::BabyBearField as F;
use rayon_core::sim;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "P18",
    run,
    quick_runs: 2_500,
    warm: 8,
    thorough_runs: 120_000,
    quick_cap_s: 60,
    rule: "runs with at least one run-time literal on at least two executions; counted once per (shape of the block, literals, conditions, verdicts)",
    real: "autoprecompiles optimistic::{execution_literals, execution_constraint_generator, algebraic_references}, empirical_constraints::{ConstraintGenerator, BlockEmpiricalConstraints}, execution::{OptimisticConstraints, OptimisticConstraintEvaluator}, build() and the optimizer behind them",
    stub: "the executing machine (states recovered from its memory accesses), rayon's thread pool",
    assumptions: &["an instruction that touches one address twice settles with its operands that it does (a literal of an address touched twice is not judged if the instruction also has a conditional access or a computed one to the same address space; no instruction of the RISC-V zkVM does that)"],
};

pub type Cell = (usize, usize);
pub enum Side {
    Cell(Cell),
    Number(u64),
}
type Addr = (u64, u64);
/// What the code under test makes of a block and a profile.
pub struct Pipe {
    pub literals: Vec<(Cell, usize, Addr, usize)>,
    pub equalities: Vec<(Side, Side)>,
    pub conditions: Vec<OptimisticConstraint<Addr, Word>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Word(u128);
impl TryFrom<u64> for Word {
    type Error = ();
    fn try_from(x: u64) -> Result<Word, ()> {
        Ok(Word(x as u128))
    }
}
/// The memory at one point of an execution.
#[derive(Clone, Default, Debug)]
struct Mem(BTreeMap<Addr, Vec<u64>>, usize);
impl ExecutionState for Mem {
    type RegisterAddress = Addr;
    type Value = Word;
    fn pc(&self) -> Word {
        Word(0)
    }
    fn value_limb(v: Word, i: usize) -> Word {
        Word((v.0 >> (32 * i)) & 0xffff_ffff)
    }
    fn reg(&self, a: &Addr) -> Word {
        Word(self.0.get(a).map(|v| v.iter().enumerate().map(|(i, x)| (*x as u128) << (32 * i)).sum()).unwrap_or(0))
    }
    fn global_clk(&self) -> usize {
        self.1
    }
}
fn addr(v: &[F]) -> Result<Addr, String> {
    match v {
        [a, b] => Ok((num(a), num(b))),
        _ => Err(format!("an address of {} parts", v.len())),
    }
}

pub fn pipeline<'a, A: Adapter<Field = F, PowdrField = F>>(block: &SuperBlock<A::Instruction>, cfg: impl Fn() -> AdapterVmConfig<'a, A>, bound: DegreeBound, emp: &EmpiricalConstraints, dir: &Path) -> Result<Pipe, String>
where
    A::InstructionHandler: 'a,
{
    // the machine before optimization, with the origin of its columns
    let o = ExportOptions::new(Some(dir.to_path_buf()), &block.start_pcs(), ExportLevel::OnlyAPC);
    let e = EmpiricalConstraints::default();
    powdr_autoprecompiles::build::<A>(block.clone(), cfg(), bound, o, &e).map_err(|e| format!("{e:?}"))?;
    let file = std::fs::read_dir(dir).unwrap().flatten().find(|f| f.file_name().to_string_lossy().ends_with("_unopt.json")).ok_or("no machine before optimization was exported")?;
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file.path()).unwrap()).unwrap();
    let machine: SymbolicMachine<F> = serde_json::from_value(v["machine"].clone()).map_err(|e| e.to_string())?;
    let subs: Vec<Vec<Substitution>> = serde_json::from_value(v["subs"].clone()).map_err(|e| e.to_string())?;
    let mut cells: BTreeMap<u64, Cell> = BTreeMap::new();
    let mut ids: Vec<Vec<u64>> = vec![];
    for (i, s) in subs.iter().enumerate() {
        let mut row = vec![u64::MAX; s.iter().map(|x| x.original_poly_index + 1).max().unwrap_or(0)];
        for x in s {
            cells.insert(x.apc_poly_id, (i, x.original_poly_index));
            row[x.original_poly_index] = x.apc_poly_id;
        }
        ids.push(row);
    }
    let lits = optimistic_literals::<A>(block, &cfg(), &bound);
    let mapper = || BlockCellAlgebraicReferenceMapper::new(&ids, machine.main_columns());
    let m = mapper();
    let known = emp.for_block(block).filtered(|c| m.get_algebraic_reference(c).is_some_and(|r| lits.contains_key(r)));
    let eqs = ConstraintGenerator::<A>::new(known, mapper(), block).generate_constraints();
    let conds = generate_execution_constraints(&eqs, &lits);
    let side = |e: &EqualityExpression<F>| match e {
        EqualityExpression::Number(n) => Ok(Side::Number(num(n))),
        EqualityExpression::Reference(r) => cells.get(&r.id).map(|c| Side::Cell(*c)).ok_or(format!("learned constraint on unknown column {}", r.name)),
    };
    let lit = |l: &OptimisticLiteral<Vec<F>>| -> Result<OptimisticLiteral<Addr>, String> {
        Ok(OptimisticLiteral {
            instr_idx: l.instr_idx,
            val: match &l.val {
                LocalOptimisticLiteral::RegisterLimb(a, i) => LocalOptimisticLiteral::RegisterLimb(addr(a)?, *i),
                LocalOptimisticLiteral::Pc => LocalOptimisticLiteral::Pc,
            },
        })
    };
    let expr = |e: &OptimisticExpression<Vec<F>, u32>| -> Result<OptimisticExpression<Addr, Word>, String> {
        Ok(match e {
            OptimisticExpression::Number(n) => OptimisticExpression::Number(Word(*n as u128)),
            OptimisticExpression::Literal(l) => OptimisticExpression::Literal(lit(l)?),
        })
    };
    let mut literals = vec![];
    for (r, l) in &lits {
        let c = cells.get(&r.id).ok_or(format!("literal for unknown column {}", r.name))?;
        let LocalOptimisticLiteral::RegisterLimb(a, i) = lit(l)?.val else { return Err(format!("column {} is read from the program counter", r.name)) };
        literals.push((*c, l.instr_idx, a, i));
    }
    let mut equalities = vec![];
    for e in &eqs {
        equalities.push((side(&e.left)?, side(&e.right)?));
    }
    let mut conditions = vec![];
    for c in &conds {
        conditions.push(OptimisticConstraint { left: expr(&c.left)?, right: expr(&c.right)? });
    }
    Ok(Pipe { literals, equalities, conditions })
}

/// The memory before each instruction and at the end, as far as the execution touches it.
/// None if an address is touched twice by one instruction in an undecidable order.
fn states(machs: &[Mach], rows: &[Vec<u64>]) -> Option<Vec<Mem>> {
    let mut now: BTreeMap<Addr, Vec<u64>> = BTreeMap::new();
    let mut out = vec![Mem::default()];
    for (k, (m, r)) in machs.iter().zip(rows).enumerate() {
        let mut first: BTreeMap<Addr, (u64, Vec<u64>)> = BTreeMap::new();
        let mut last: BTreeMap<Addr, (u64, Vec<u64>)> = BTreeMap::new();
        for b in m.bus.iter().filter(|b| b.id == MEM) {
            let mu = b.mult.eval(r);
            if mu == 0 {
                continue;
            }
            let a: Vec<u64> = b.args.iter().map(|x| x.eval(r)).collect();
            let (at, t) = ((a[0], a[1]), a[a.len() - 1]);
            let data = a[2..a.len() - 1].to_vec();
            if mu == P - 1 {
                let e = first.entry(at).or_insert((t, data.clone()));
                if t < e.0 {
                    *e = (t, data);
                }
            } else {
                let e = last.entry(at).or_insert((t, data.clone()));
                if t > e.0 {
                    *e = (t, data);
                }
            }
        }
        for (a, (_, d)) in &first {
            match now.get(a) {
                Some(x) if x != d => return None,
                Some(_) => {}
                None => {
                    for s in out.iter_mut() {
                        s.0.insert(*a, d.clone());
                    }
                }
            }
        }
        for (a, (_, d)) in last {
            now.insert(a, d);
        }
        out.push(Mem(now.clone(), k + 1));
    }
    Some(out)
}

/// Addresses which the instruction touches more than once while it also has an access which
/// its operands do not settle: whether at all, or where in the same address space.
fn unsettled(m: &Mach, r: &[u64]) -> BTreeSet<Addr> {
    let ops: BTreeSet<usize> = m.bus.iter().filter(|b| b.id == PC || b.id == EXEC).flat_map(|b| if b.id == PC { b.args[1..].iter().flat_map(|a| a.vars.clone()).collect::<Vec<_>>() } else { b.mult.vars.clone() }).collect();
    let mut seen: BTreeMap<Addr, usize> = BTreeMap::new();
    let (mut loose, mut any) = (BTreeSet::new(), false);
    for b in m.bus.iter().filter(|b| b.id == MEM) {
        let a = (b.args[0].eval(r), b.args[1].eval(r));
        *seen.entry(a).or_insert(0) += 1;
        if !b.mult.vars.iter().all(|v| ops.contains(v)) {
            any = true;
        }
        if !b.args[0].vars.iter().chain(&b.args[1].vars).all(|v| ops.contains(v)) {
            loose.insert(a.0);
        }
    }
    seen.into_iter().filter(|(a, n)| *n > 2 && (any || loose.contains(&a.0))).map(|x| x.0).collect()
}

fn run(cx: &Cx) -> Res {
    let t = cx.thorough;
    let risc = Opts { max_len: if t { 8 } else { 5 }, superblocks: true, learn: false, execs: 8 };
    let syn = Opts { max_len: if t { 4 } else { 3 }, superblocks: true, learn: false, execs: 8 };
    let Some(c) = subject::draw(4, &risc, &syn, if t { 7 } else { 5 }) else {
        return Ok(Outcome::default());
    };
    let n = range(1, c.execs());
    let bound = if chance(3, 4) { BOUND } else { DegreeBound { identities: range(3, 5), bus_interactions: range(2, 3) } };
    let dir = cx.scratch.join("p18");
    let fresh = || {
        sim::muted(|| {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
        })
    };
    fresh();
    let env = draw_env();
    let (cr, dr) = (&c, dir.as_path());
    let pipe = match under(env, move || cr.literals(n, bound, dr)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return violation("unusable", format!("{}: {e}", c.show())),
        Err(m) => return violation("panic", format!("{}: {m}", c.show())),
    };
    fresh();
    let machs = c.machs();
    let mut verdicts = vec![];
    for e in 0..c.execs() {
        let rows = c.rows(e);
        let Some(st) = states(&machs, &rows) else { return Ok(Outcome::default()) };
        let skip: Vec<BTreeSet<Addr>> = machs.iter().zip(&rows).map(|(m, r)| unsettled(m, r)).collect();
        let mut skipped = false;
        for ((i, col), step, a, limb) in &pipe.literals {
            if skip[*i].contains(a) {
                skipped = true;
                continue;
            }
            let want = rows[*i][*col];
            let Some(s) = st.get(*step) else {
                return violation("literal-step", format!("{}: column {col} of instruction {i} is said to be seen at step {step} of {}", c.show(), rows.len()));
            };
            let got = s.0.get(a).and_then(|v| v.get(*limb)).copied();
            ensure!(got == Some(want), "wrong-literal", "{}: column {} of instruction {i} is {want} in execution {e}, but limb {limb} of {a:?} before step {step} is {got:?}; row {:?}", c.show(), machs[*i].names[*col], rows[*i]);
        }
        if skipped {
            sim::count("probe.unsettled_skipped");
            verdicts.push(false);
            continue;
        }
        ensure!(pipe.equalities.len() == pipe.conditions.len(), "conditions", "{} conditions for {} learned constraints", pipe.conditions.len(), pipe.equalities.len());
        let val = |s: &Side| match s {
            Side::Cell((i, c)) => rows[*i][*c],
            Side::Number(n) => *n,
        };
        let meets = |cs: Vec<OptimisticConstraint<Addr, Word>>| {
            let oc = OptimisticConstraints::from_constraints(cs);
            let mut ev = OptimisticConstraintEvaluator::<Addr, Word>::new();
            st.iter().all(|s| ev.try_next_execution_step(s, &oc).is_ok())
        };
        let mut all = true;
        for (k, (l, r)) in pipe.equalities.iter().enumerate() {
            let want = val(l) == val(r);
            all &= want;
            ensure!(e >= n || want, "false-learned", "{}: learned constraint {k} does not hold in execution {e} of the {n} it was learned from", c.show());
            if k < 60 {
                let got = meets(vec![pipe.conditions[k].clone()]);
                ensure!(got == want, "wrong-condition", "{}: execution {e} {} the learned constraint but {} its condition {:?}", c.show(), if want { "meets" } else { "does not meet" }, if got { "meets" } else { "does not meet" }, pipe.conditions[k]);
            }
        }
        let got = meets(pipe.conditions.clone());
        ensure!(got == all, "wrong-condition", "{}: execution {e}: all learned constraints {all}, all conditions {got}", c.show());
        verdicts.push(got);
    }
    sim::count_n("probe.literals", pipe.literals.len() as u64);
    sim::count_n("probe.conditions", pipe.conditions.len() as u64);
    if verdicts.contains(&false) {
        sim::count("probe.execution_refused");
    }
    sim::event("literals", pipe.literals.len() as u64);
    Ok(Outcome {
        nontrivial: !pipe.literals.is_empty() && verdicts.len() > 1,
        signature: hash(&(c.shape(), pipe.literals.len(), pipe.conditions.len(), &verdicts)),
        sample: format!("{} instructions, {} literals, {} conditions, verdicts {verdicts:?}", c.size(), pipe.literals.len(), pipe.conditions.len()),
    })
}
