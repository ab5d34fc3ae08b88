//! Soundness: whatever row a prover gets accepted has the effect of running the block.
use super::apc::{effect, Opts};
use super::subject::{self, fill, Judged};
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::vm::adapter::BOUND;
use crate::vm::adv::*;
use crate::vm::isa::*;
use crate::vm::mach::*;
use crate::vm::P;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P03",
    run,
    quick_runs: 10000,
    warm: 2,
    thorough_runs: 1_500_000,
    quick_cap_s: 75,
    rule: "a run builds one precompile and judges at least one forged row that the verifier accepts; distinct by (instructions, block shape, learned constraints)",
    real: "powdr-autoprecompiles::build and everything below it (symbolic machine generation, optimizer, rule-based optimizer, memory / range-constraint / bus optimizers, empirical and optimistic constraints), powdr-constraint-solver, powdr-openvm-bus-interaction-handler, powdr-number; the OpenVM AIR constraint text (one block in a dozen; the others use instruction AIRs drawn at random); rayon's parallel iterators",
    stub: "the zkVM (reference interpreter of 13 instruction AIRs, and reference semantics of randomly drawn instruction AIRs, registers, memory, clock, program), the proving system (a row verifier: constraints, range and lookup buses, net effect on the stateful buses), rayon's thread pool, OS randomness, clock",
    assumptions: &["a row counts only if the row verifier accepts it together with honest neighbours; the judge asks for an original-instruction execution with the same effect"],
};

/// Compares the effect of an accepted row with running the block.
pub fn judge(flat: &[(u32, Ins)], net: &Net) -> Judged {
    use Judged::*;
    if net.is_empty() {
        return Inert;
    }
    let ex: Vec<_> = net.iter().filter(|((b, _), m)| *b == EXEC && **m > P / 2).collect();
    if ex.len() != 1 || *ex[0].1 != P - 1 {
        return Bad(format!("{} control-flow inputs", ex.len()));
    }
    let (pc, ts) = (ex[0].0 .1[0], ex[0].0 .1[1]);
    if pc != flat[0].0 as u64 {
        return Bad(format!("starts at {pc}"));
    }
    if ts == 0 || ts >= 1 << 29 {
        return Impossible("probe.forged_impossible_time");
    }
    let mut s = State { pc: pc as u32, ts: ts as u32, ..Default::default() };
    for ((b, k), m) in net {
        if *b != MEM || *m < P / 2 {
            continue;
        }
        if *m != P - 1 {
            return Impossible("probe.forged_impossible_cell_read_twice");
        }
        if k[0] > 2 || k[2..6].iter().any(|x| *x > 255) {
            return Impossible("probe.forged_impossible_cell");
        }
        if k[6] >= 1 << 29 {
            return Impossible("probe.forged_impossible_access_time");
        }
        if k[1] >= 1 << 29 || k[1] % 4 != 0 {
            return Impossible("probe.forged_impossible_address");
        }
        let v = u32::from_le_bytes([k[2] as u8, k[3] as u8, k[4] as u8, k[5] as u8]);
        if k[0] == 1 && k[1] == 0 && v != 0 {
            return Impossible("probe.forged_impossible_x0");
        }
        if s.cells.insert((k[0] as u32, k[1] as u32), (v, k[6] as u32)).is_some() {
            return Impossible("probe.forged_impossible_cell_read_twice");
        }
    }
    let start = s.clone();
    for (i, (pc, ins)) in flat.iter().enumerate() {
        if s.pc != *pc {
            return Bad(format!("instruction {i} runs although control is at {}", s.pc));
        }
        // accesses must come after the ones they follow
        let before = s.ts;
        let keys: Vec<_> = s.cells.iter().map(|(k, c)| (*k, c.1)).collect();
        if let Err(Stop::Trap(t)) = step(&mut s, ins, false) {
            return Bad(format!("instruction {i} is not executable: {t}"));
        }
        for (k, t) in keys {
            let now = s.cells[&k].1;
            if now != t && (t >= now || (start.cells[&k].1 == t && t >= now)) {
                return Bad(format!("instruction {i} at time {before} reads a cell written at time {t}"));
            }
        }
    }
    let mut want = Net::new();
    effect(&start, &s, &mut want);
    if &want == net {
        Good
    } else {
        Bad(format!("effect {} instead of {}", show_net(net), show_net(&want)))
    }
}

pub fn run(cx: &Cx) -> Res {
    let risc = Opts { max_len: if cx.thorough { 10 } else { 6 }, superblocks: true, learn: true, execs: 3 };
    let syn = Opts { max_len: if cx.thorough { 5 } else { 4 }, superblocks: true, learn: true, execs: 6 };
    let Some(c) = subject::draw(12, &risc, &syn, if cx.thorough { 7 } else { 5 }) else { return Ok(Outcome::default()) };
    let seed = sim::choose(1 << 32);
    let env = plain_env(sim::choose(1 << 16));
    let apc = match under(env, || c.build(BOUND, false)) {
        Ok(Ok(a)) => a,
        _ => return Ok(Outcome::default()), // not this property
    };
    let Ok(m) = Mach::new(&apc.machine) else { return Ok(Outcome::default()) };
    let program = c.program();
    let adv = Adv::new(&m);
    let mut r = Rng(seed);
    let mut base: Vec<Vec<u64>> = vec![];
    for e in 0..c.execs() {
        if let Ok(row) = fill(&apc, &m, &c.rows(e)) {
            if m.check(&row).is_ok() {
                base.push(row);
            }
        }
    }
    let judge_row = |row: &[u64]| -> Result<bool, Violation> {
        for b in m.bus.iter().filter(|b| b.id == PC && b.mult.eval(row) != 0) {
            let a: Vec<u64> = b.args.iter().map(|a| a.eval(row)).collect();
            if !program.contains(&a) {
                return Ok(false);
            }
        }
        let mut net = Net::new();
        m.net(row, &mut net);
        match c.judge(&net) {
            Judged::Good => {
                sim::count("probe.forged_consistent");
                Ok(true)
            }
            Judged::Inert => {
                sim::count("probe.forged_inert");
                Ok(true)
            }
            Judged::Impossible(w) => {
                sim::count(w);
                Ok(false)
            }
            Judged::Bad(x) => violation(
                "forged",
                format!("accepted row {} for {}: {x}", m.show(&(0..m.ids.len()).collect::<Vec<_>>(), row), c.show()),
            ),
        }
    };
    let mut judged = 0;
    for row in &base {
        judge_row(row)?;
    }
    if base.is_empty() {
        return Ok(Outcome::default());
    }
    let attempts = if cx.thorough { 1200 } else { 250 };
    for _ in 0..attempts {
        let from = r.below(base.len());
        let got = sim::muted(|| adv.attempt(&base[from], &mut r));
        sim::count("fault.byzantine_cell");
        if let Some(row) = got {
            ensure!(m.check(&row).is_ok(), "harness", "attempt returned a rejected row");
            judged += judge_row(&row)? as u64;
            // climb: continue from consistent forged rows now and then
            if r.below(8) == 0 && base.len() < 12 {
                base.push(row);
            }
        }
    }
    Ok(Outcome { nontrivial: judged > 0, signature: c.shape(), sample: format!("{} ({judged} accepted forgeries judged)", c.show()) })
}
