use super::exec::*;
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use powdr_autoprecompiles::execution::*;
use rayon_core::sim;

pub static PROP: Prop = Prop {
    id: "P04",
    run,
    quick_runs: 400_000,
    warm: 0,
    thorough_runs: 6_000_000,
    quick_cap_s: 60,
    rule: "runs with at least two candidates that completed and overlapped, or with an extraction after an aborted segment; counted once per (hash of the operation history, schedule)",
    real: "autoprecompiles execution::{ApcCandidates, OptimisticConstraintEvaluator, OptimisticConstraints}",
    stub: "the executing machine (pc, four registers, clock) and its snapshots",
    assumptions: &["the clock is strictly increasing within an execution, as the state interface demands", "candidates span at least one cycle"],
};

struct A {
    cons: OptimisticConstraints<u8, u32>,
    len: usize,
    prio: usize,
}
impl Apc<St> for A {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u8, u32> {
        &self.cons
    }
    fn cycle_count(&self) -> usize {
        self.len
    }
    fn priority(&self) -> usize {
        self.prio
    }
}
struct Spec {
    cons: Vec<C>,
    len: usize,
    prio: usize,
}
#[derive(Clone, Debug)]
struct Cand {
    apc: usize,
    start: usize,
    end: Option<usize>,
}

fn run(cx: &Cx) -> Res {
    let steps = tail(3, if cx.thorough { 60 } else { 30 }, 250);
    // the execution that will happen (the schedule of machine steps)
    let mut st = St::new();
    let mut hist = vec![st];
    for _ in 0..steps {
        st.step();
        hist.push(st);
    }
    let n = tail(1, 5, 20);
    let specs: Vec<Spec> = (0..n)
        .map(|_| {
            let len = tail(1, 7, steps.max(12));
            let s0 = below(hist.len());
            let cons = (0..tail(0, 3, 20)).map(|_| draw_constraint(len + below(2), Some(&hist[s0..]))).collect();
            Spec { cons, len, prio: if chance(1, 16) { pick(&[usize::MAX, usize::MAX - 1, 255, 256, 1 << 32, 100]) } else { below(4) } }
        })
        .collect();
    let (out, log) = must("tracker", || drive(&hist, &specs))??;
    Ok(Outcome { nontrivial: out, signature: sim::log_hash(), sample: log })
}

fn drive(hist: &[St], specs: &[Spec]) -> Result<(bool, String), Violation> {
    let apcs = specs
        .iter()
        .map(|s| A { cons: OptimisticConstraints::from_constraints(s.cons.clone()), len: s.len, prio: s.prio })
        .collect();
    let mut t = ApcCandidates::<St, A, (usize, usize)>::new(apcs);
    let mut model: Vec<Cand> = vec![];
    let mut log = vec![];
    let mut nontrivial = false;
    let mut inc = 0usize; // incarnation: snapshots are unique per call
    for now in 0..hist.len() {
        let s = &hist[now];
        if now > 0 {
            // advance the model: constraints that became evaluable
            model.retain_mut(|c| {
                if c.end.is_some() {
                    return true;
                }
                let k = now - c.start;
                let h = &hist[c.start..=now];
                if specs[c.apc].cons.iter().any(|q| evaluable_at(q) == k && !holds(h, q)) {
                    return false;
                }
                if k == specs[c.apc].len {
                    c.end = Some(now);
                }
                true
            });
            t.check_conditions(s, || (now, inc));
            sim::event("step", now as u64);
        }
        if chance(1, 12) {
            // the segment ends here
            sim::count("fault.segment_cut");
            let mut got = t.abort_in_progress();
            let mut want: Vec<usize> = model.iter().filter(|c| c.end.is_none()).map(|c| c.apc).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "abort-mismatch", "at step {now}: aborted {got:?}, expected {want:?}; {model:?}");
            model.retain(|c| c.end.is_some());
            sim::event("abort", got.len() as u64);
            log.push(format!("{now}:cut"));
            nontrivial |= !got.is_empty();
        }
        // a caller may extract at every step or only now and then
        if !chance(1, 4) {
            nontrivial |= extract(&mut t, &mut model, specs, hist, now)?;
        }
        for _ in 0..pick(&[0usize, 1, 1, 2, 3, 0, 1, 1, 2, 3, 6]) {
            let id = below(specs.len());
            inc += 1;
            let ok = t.try_insert(s, id, || (now, inc)).is_ok();
            let want = specs[id].cons.iter().filter(|q| evaluable_at(q) == 0).all(|q| holds(&hist[now..=now], q));
            ensure!(ok == want, "insert-mismatch", "at step {now} inserting apc {id}: accepted={ok}, conditions on the current state hold={want}");
            sim::event("insert", id as u64 * 2 + ok as u64);
            log.push(format!("{now}:+{id}{}", if ok { "" } else { "!" }));
            if ok {
                model.push(Cand { apc: id, start: now, end: None });
            }
        }
        if chance(1, 40) {
            // executor restart: only the program survives
            sim::count("fault.crash");
            let apcs = specs
                .iter()
                .map(|s| {
                    let c: OptimisticConstraints<u8, u32> = OptimisticConstraints::from_constraints(s.cons.clone());
                    let b = serde_cbor::to_vec(&c).unwrap();
                    A { cons: serde_cbor::from_slice(&b).unwrap(), len: s.len, prio: s.prio }
                })
                .collect();
            t = ApcCandidates::new(apcs);
            model.clear();
        }
    }
    t.abort_in_progress();
    model.retain(|c| c.end.is_some());
    nontrivial |= extract(&mut t, &mut model, specs, hist, hist.len() - 1)?;
    ensure!(t.extract_calls().is_empty(), "stale-calls", "a second extraction returned calls again");
    Ok((nontrivial, format!("lens/prios {:?}; {}", specs.iter().map(|s| (s.len, s.prio, s.cons.len())).collect::<Vec<_>>(), log.join(" "))))
}

fn extract(
    t: &mut ApcCandidates<St, A, (usize, usize)>,
    model: &mut Vec<Cand>,
    specs: &[Spec],
    hist: &[St],
    now: usize,
) -> Result<bool, Violation> {
    let calls = t.extract_calls();
    if model.iter().any(|c| c.end.is_none()) {
        ensure!(calls.is_empty(), "early-extraction", "at step {now} {} calls were returned while a candidate was in progress: {model:?}", calls.len());
        return Ok(false);
    }
    let mut want: Vec<(usize, usize, usize)> = vec![];
    let n = model.len();
    let mut dropped = vec![false; n];
    let span = |c: &Cand| (hist[c.start].clk, hist[c.end.unwrap()].clk);
    let rank = |i: usize| {
        let (a, b) = span(&model[i]);
        (specs[model[i].apc].prio, b - a, std::cmp::Reverse(i))
    };
    let mut conflicts = 0;
    for i in 0..n {
        for j in i + 1..n {
            let ((a, b), (c, d)) = (span(&model[i]), span(&model[j]));
            if dropped[i] || dropped[j] || a >= d || c >= b {
                continue;
            }
            conflicts += 1;
            if rank(i) > rank(j) {
                dropped[j] = true
            } else {
                dropped[i] = true
            }
        }
    }
    for i in 0..n {
        if !dropped[i] {
            want.push((model[i].start, model[i].end.unwrap(), model[i].apc));
        }
    }
    let mut got: Vec<(usize, usize, usize)> = calls.iter().map(|c| (c.from.0, c.to.0, c.apc_id)).collect();
    got.sort();
    want.sort();
    for w in got.windows(2) {
        ensure!(w[0].1 <= w[1].0, "overlap", "at step {now}: overlapping calls {:?} and {:?}", w[0], w[1]);
    }
    ensure!(got == want, "wrong-calls", "at step {now}: returned (from,to,apc) {got:?}, expected {want:?}; completed {model:?}");
    sim::event("extract", got.len() as u64);
    if !got.is_empty() {
        sim::count("probe.extractions");
    }
    sim::count_n("probe.conflicts", conflicts);
    model.clear();
    Ok(conflicts > 0)
}
