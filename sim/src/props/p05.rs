use super::exec::*;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use powdr_autoprecompiles::execution::*;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P05",
    run,
    quick_runs: 400_000,
    warm: 0,
    thorough_runs: 6_000_000,
    quick_cap_s: 60,
    rule: "runs whose constraint set refers to at least two different steps of the execution; counted once per hash of (history, verdicts)",
    real: "autoprecompiles execution::{OptimisticConstraintEvaluator, OptimisticConstraints}",
    stub: "the executing machine (pc, four registers, clock)",
    assumptions: &[],
};

fn run(cx: &Cx) -> Res {
    let steps = tail(1, if cx.thorough { 40 } else { 16 }, 200);
    let mut st = St::new();
    let mut hist = vec![st];
    for _ in 0..steps {
        st.step();
        hist.push(st);
    }
    let max = range(0, steps + 1);
    let cons: Vec<C> = (0..tail(0, 6, 40)).map(|_| draw_constraint(max, Some(&hist))).collect();
    let first_bad = cons.iter().filter(|c| evaluable_at(c) < hist.len()).filter(|c| !holds(&hist, c)).map(evaluable_at).min();
    let env = Env { workers: 1, ..draw_env() };
    let (crash_at, crash2) = (below(hist.len() * 3), below(hist.len() * 3));
    let (h2, c2) = (hist.clone(), cons.clone());
    let got = under(env, move || {
        let mut oc = OptimisticConstraints::from_constraints(c2);
        let mut restarts = vec![crash_at, crash2];
        let mut ev = OptimisticConstraintEvaluator::<u8, u32>::new();
        // other evaluators share the same constraint set and fail or proceed on their own
        let mut other = OptimisticConstraintEvaluator::<u8, u32>::new();
        let mut other_ok = true;
        let mut k = 0;
        while k < h2.len() {
            if restarts.contains(&k) {
                // the executor stops; the program with its constraints is reloaded and re-executed
                sim::count("fault.crash");
                restarts.retain(|x| *x != k);
                oc = if chance(1, 2) {
                    serde_json::from_str(&serde_json::to_string(&oc).unwrap()).unwrap()
                } else {
                    serde_cbor::from_slice(&serde_cbor::to_vec(&oc).unwrap()).unwrap()
                };
                ev = OptimisticConstraintEvaluator::new();
                k = 0;
                continue;
            }
            if ev.instruction_index() != k {
                return Err(format!("instruction index is {} after {k} accepted steps", ev.instruction_index()));
            }
            if ev.try_next_execution_step(&h2[k], &oc).is_err() {
                return Ok(Some(k));
            }
            if other_ok && k > 0 && chance(1, 2) {
                other_ok = other.try_next_execution_step(&h2[k], &oc).is_ok();
            }
            k += 1;
        }
        Ok(None)
    });
    let got = match got {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return violation("instruction-index", e),
        Err(p) => return violation("panic-evaluator", p),
    };
    ensure!(
        got == first_bad,
        "wrong-verdict",
        "the constraint set fails at step {got:?}, expected {first_bad:?}; constraints {cons:?}; history {hist:?}"
    );
    sim::event("verdict", got.map(|x| x as u64 + 1).unwrap_or(0));
    sim::event("hist", hash(&hist));
    sim::count(if got.is_some() { "probe.rejected" } else { "probe.accepted" });
    let mut ids: Vec<usize> = cons.iter().map(evaluable_at).collect();
    ids.sort();
    ids.dedup();
    Ok(Outcome { nontrivial: ids.len() >= 2, signature: sim::log_hash(), sample: format!("{} steps, {} constraints, fails at {got:?}", steps, cons.len()) })
}
