use super::p08::{cost_of, Cand, SALT};
use crate::driver::*;
use crate::ensure;
use crate::gen::*;
use crate::seams::{fs_arm, fs_disarm, FsFault};
use crate::vm::tiny::*;
use crate::vm::walk;
use powdr_autoprecompiles::adapter::PgoAdapter;
use powdr_autoprecompiles::blocks::{collect_basic_blocks, detect_superblocks, Instruction, SuperBlock};
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
use powdr_autoprecompiles::execution_profile::ExecutionProfile;
use powdr_autoprecompiles::export::{ExportLevel, ExportOptions};
use powdr_autoprecompiles::pgo::{CellPgo, NonePgo};
use powdr_autoprecompiles::PowdrConfig;
use powdr_number::BabyBearField as F;
use rayon_core::sim;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;

pub static PROP: Prop = Prop {
    id: "P11",
    run,
    quick_runs: 6_000,
    warm: 16,
    thorough_runs: 60_000,
    quick_cap_s: 60,
    rule: "runs in which a fault struck a file operation of the export; counted once per (kind of fault, operation struck, outcome, files)",
    real: "autoprecompiles export::ExportOptions (all levels), pgo::CellPgo's apc_candidates.json, pgo::NonePgo, build(); std's file and buffered I/O",
    stub: "the file system's system calls below a scratch directory (fault injection in front of the real ones), rayon's thread pool, the instruction set",
    assumptions: &["after a crash every completed system call is durable (page-cache loss is not modelled: the code never syncs and promises nothing beyond process crashes)", "errors of close() are not injected: std ignores them"],
};

type Files = BTreeMap<String, Vec<u8>>;
fn read_dir(d: &Path) -> Files {
    sim::muted(|| {
        let mut m = Files::new();
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                if e.path().is_file() {
                    m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        m
    })
}
fn wipe(d: &Path) {
    sim::muted(|| {
        let _ = std::fs::remove_dir_all(d);
    })
}
/// Same content: JSON as values (the byte order of maps is not promised), the rest as bytes.
fn same(name: &str, a: &[u8], b: &[u8]) -> bool {
    if name.ends_with(".json") {
        match (serde_json::from_slice::<Value>(a), serde_json::from_slice::<Value>(b)) {
            (Ok(a), Ok(b)) => a == b,
            _ => false,
        }
    } else {
        a == b
    }
}
fn differ(a: &Files, b: &Files) -> Option<String> {
    for (n, c) in a {
        match b.get(n) {
            None => return Some(format!("{n} is missing")),
            Some(d) => {
                if !same(n, c, d) {
                    return Some(format!("{n} ({} bytes) is incomplete or wrong, expected {} bytes", d.len(), c.len()));
                }
            }
        }
    }
    None
}

fn run(cx: &Cx) -> Res {
    SALT.store(sim::choose(1 << 32), SeqCst);
    let w = walk::program(if cx.thorough { 16 } else { 10 }, KINDS, &[0, 0x200, 0x20_0000]);
    let blocks = collect_basic_blocks::<TinyVm>(&w.prog, &w.targets);
    let bl = w.blocks();
    let mode = below(4);
    let level = below(3);
    let lv = move || match level {
        0 => ExportLevel::OnlyAPC,
        1 => ExportLevel::APCAndOptimizerLoop,
        _ => ExportLevel::APCAndOptimizerSteps,
    };
    let usable: Vec<usize> = (0..bl.len()).filter(|&k| bl[k].1 - bl[k].0 > 1).collect();
    if usable.is_empty() {
        return Ok(Outcome::default());
    }
    let single = blocks[usable[below(usable.len())]].clone();
    let steps = w.walk(20);
    let pcs = w.pcs(&steps);
    let mut pc_count = HashMap::new();
    for p in &pcs {
        *pc_count.entry(*p).or_insert(0u32) += 1;
    }
    let prof = ExecutionProfile { pc_count, pc_list: pcs };
    // one in a few executions is a long one: every run of blocks repeats
    let repeat = if mode == 2 { pick(&[1u32, 1, 1, 1, 300, 70_000, 1 << 24]) } else { 1 };
    let labels: BTreeMap<u64, Vec<String>> = (0..below(3)).map(|i| (i as u64 * 8, vec![format!("f\"{i}\n\u{1F980}")])).collect();
    let max_bb = tail(1, 2, 5) as u8;
    // what is done, with or without export to `dir`; the result as JSON
    let job = |dir: Option<&Path>| -> Vec<Value> {
        let e = EmpiricalConstraints::default();
        let l = labels.clone();
        if mode < 2 {
            let mut o = ExportOptions::new(dir.map(|d| d.to_path_buf()), &[single.start_pc], lv());
            if dir.is_none() && level == 2 {
                o = ExportOptions::from_env_vars(None, Some("3".into()), &[single.start_pc]);
            }
            let a = powdr_autoprecompiles::build::<TinyVm>(SuperBlock::from(single.clone()), vm_config(), crate::vm::adapter::BOUND, o, &e).expect("build");
            vec![serde_json::to_value(&a).unwrap()]
        } else {
            let mut cfg = PowdrConfig::new(3, 0, crate::vm::adapter::BOUND).with_superblocks(if mode == 2 { max_bb } else { 1 }, None, None);
            if let Some(d) = dir {
                cfg = cfg.with_apc_candidates_dir(d);
            }
            let out = if mode == 2 && repeat > 1 {
                let mut x = detect_superblocks(&cfg, &prof.pc_list, blocks.clone());
                x.blocks.iter_mut().for_each(|b| b.count *= repeat);
                x.execution_bb_runs.iter_mut().for_each(|r| r.1 *= repeat);
                CellPgo::<TinyVm, Cand>::with_pgo_data_and_max_columns(prof.clone(), None).create_apcs_with_pgo(x, &cfg, vm_config(), l, e)
            } else if mode == 2 {
                CellPgo::<TinyVm, Cand>::with_pgo_data_and_max_columns(prof.clone(), None).filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &cfg, vm_config(), l, e)
            } else {
                NonePgo::<TinyVm>::default().filter_blocks_and_create_apcs_with_pgo(blocks.clone(), &cfg, vm_config(), l, e)
            };
            out.iter().map(|a| serde_json::to_value(a.apc()).unwrap()).collect()
        }
    };
    let root = cx.scratch.join("p11");
    wipe(&root);
    let (da, db) = (root.join("a"), root.join("b"));
    let env = draw_env();
    // without any export
    let (j, d1) = (&job, da.as_path());
    let plain = match under(env, move || j(None)) {
        Ok(p) => p,
        Err(m) => return violation("panic-no-export", format!("mode {mode} level {level}: {m}")),
    };
    ensure!(!da.exists(), "export-without-path", "something was exported though no path was given");
    // without faults; the directory must exist for the candidates file
    sim::muted(|| std::fs::create_dir_all(&da).unwrap());
    fs_arm(root.to_str().unwrap(), FsFault::None, 0, 0, 0);
    let r = under(env, move || j(Some(d1)));
    let ops = fs_disarm().ops;
    let good = match r {
        Ok(p) => p,
        Err(m) => return violation("panic-export", format!("mode {mode} level {level}: {m}")),
    };
    ensure!(good == plain, "export-changes-result", "mode {mode} level {level}: the result differs when it is exported");
    let want = read_dir(&da);
    // what the files say
    for v in &good {
        let pcs: Vec<u64> = v["block"]["blocks"].as_array().unwrap().iter().map(|b| b["start_pc"].as_u64().unwrap()).collect();
        let stem = format!("apc_candidate_{}", pcs.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("_"));
        let fin: Vec<(&String, Value)> = want
            .iter()
            .filter(|(n, _)| n.strip_prefix(&stem).and_then(|x| x.strip_prefix('_')).and_then(|x| x.strip_suffix(".json")).is_some_and(|x| x.len() >= 3 && x.bytes().all(|c| c.is_ascii_digit())))
            .filter_map(|(n, c)| serde_json::from_slice(c).ok().map(|v| (n, v)))
            .collect();
        ensure!(fin.len() == 1, "no-final-export", "precompile {pcs:?}: {} final files in {:?}", fin.len(), want.keys().collect::<Vec<_>>());
        for k in ["machine", "subs", "optimistic_constraints"] {
            ensure!(fin[0].1[k] == v[k], "wrong-export", "{}: {k} differs from the precompile", fin[0].0);
        }
        // the block, with every instruction as its row of the program table without the address
        let code: Vec<Value> = pcs
            .iter()
            .map(|p| {
                let k = (0..bl.len()).find(|&k| w.pc(bl[k].0) == *p).unwrap();
                let rows: Vec<Vec<F>> = w.prog.ins[bl[k].0..bl[k].1].iter().map(|i| i.pc_lookup_row(0)[1..].to_vec()).collect();
                serde_json::json!({"start_pc": p, "instructions": rows})
            })
            .collect();
        ensure!(fin[0].1["block"]["blocks"] == Value::Array(code.clone()), "wrong-export", "{}: block {} instead of {code:?}", fin[0].0, fin[0].1["block"]);
        ensure!(want.contains_key(&format!("{stem}_000_unopt.json")), "no-unopt-export", "precompile {pcs:?}: {:?}", want.keys().collect::<Vec<_>>());
    }
    if mode == 2 {
        let c: Value = match want.get("apc_candidates.json").map(|c| serde_json::from_slice(c)) {
            Some(Ok(v)) => v,
            x => return violation("no-candidates-file", format!("{x:?}")),
        };
        ensure!(c["labels"] == serde_json::to_value(&labels).unwrap(), "wrong-candidates", "labels {}", c["labels"]);
        let mut runs: Vec<Vec<u64>> = vec![vec![]];
        for &k in &steps {
            if bl[k].1 - bl[k].0 == 1 {
                runs.push(vec![]);
            } else {
                runs.last_mut().unwrap().push(w.pc(bl[k].0));
            }
        }
        let mut counts: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
        for r in &runs {
            for n in 1..=(max_bb as usize).min(r.len()) {
                for s in 0..=r.len() - n {
                    counts.entry(r[s..s + n].to_vec()).or_default();
                }
            }
        }
        for (sb, c) in counts.iter_mut() {
            *c = runs.iter().map(|r| walk::occurrences(r, sb).len() as u64).sum();
        }
        counts.values_mut().for_each(|c| *c *= repeat as u64);
        let mut seen: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
        for a in c["apcs"].as_array().unwrap() {
            let pcs: Vec<u64> = a["original_blocks"].as_array().unwrap().iter().map(|b| b["start_pc"].as_u64().unwrap()).collect();
            let (cb, ca, v) = cost_of(&pcs);
            let n = a["execution_frequency"].as_u64().unwrap();
            seen.insert(pcs.clone(), n);
            ensure!(
                a["value"].as_u64() == Some(n * v as u64) && a["cost_before"].as_f64() == Some(cb as f64) && a["cost_after"].as_f64() == Some(ca as f64) && a["width_before"].as_u64() == Some(cb as u64),
                "wrong-candidates",
                "candidate {pcs:?}: {a}"
            );
            let ins: Vec<String> = a["original_blocks"].as_array().unwrap().iter().flat_map(|b| b["instructions"].as_array().unwrap().iter().map(|i| i.as_str().unwrap().to_string())).collect();
            let wi: Vec<String> = pcs.iter().flat_map(|p| {
                let k = (0..bl.len()).find(|&k| w.pc(bl[k].0) == *p).unwrap();
                w.prog.ins[bl[k].0..bl[k].1].iter().map(|i| i.to_string()).collect::<Vec<_>>()
            }).collect();
            ensure!(ins == wi, "wrong-candidates", "candidate {pcs:?} lists {ins:?}, expected {wi:?}");
        }
        ensure!(seen == counts, "wrong-candidates", "candidates {seen:?}, expected {counts:?}");
    }
    if ops == 0 {
        return Ok(Outcome::default());
    }
    // with faults
    sim::muted(|| std::fs::create_dir_all(&db).unwrap());
    if chance(1, 3) {
        // left over from an earlier, larger export
        sim::count("fault.stale_files");
        sim::muted(|| {
            for (n, c) in &want {
                let mut c = c.clone();
                c.extend(std::iter::repeat_n(b'}', 5000));
                std::fs::write(db.join(n), c).unwrap();
            }
        });
    }
    let at = below(ops as usize) as u64;
    let fault = match below(9) {
        0 => FsFault::None,
        1 => FsFault::Eintr,
        2 => FsFault::Short,
        3 => FsFault::Errno(pick(&[libc::EIO, libc::ENOSPC, libc::EACCES])),
        4 => FsFault::Full,
        5 | 6 => FsFault::Outage(pick(&[libc::EIO, libc::ENOSPC]), range(2, 5) as u64),
        _ => FsFault::Crash,
    };
    let (se, ee) = (pick(&[0u64, 2, 3]), pick(&[0u64, 3, 5]));
    let env2 = draw_env();
    fs_arm(root.to_str().unwrap(), fault, at, se, ee);
    let d2 = db.as_path();
    let r = under(env2, move || j(Some(d2)));
    let rep = fs_disarm();
    let hard = matches!(fault, FsFault::Errno(_) | FsFault::Outage(..) | FsFault::Full | FsFault::Crash) && rep.fired;
    let how = format!("mode {mode} level {level}, {fault:?} at operation {at} ({}), short writes every {se}, interruptions every {ee}", rep.log.get(at as usize).cloned().unwrap_or_default());
    let struck = rep.log.get(at as usize).map(|l| l.split(':').nth(1).unwrap_or("").split('[').next().unwrap_or("").to_string()).unwrap_or_default();
    let ok = r.is_ok();
    match r {
        Ok(res) => {
            ensure!(res == plain, "export-changes-result", "{how}: the result differs");
            // reported as done: everything must be there
            if let Some(d) = differ(&want, &read_dir(&db)) {
                return violation("silent-loss", format!("{how}: reported success, but {d}"));
            }
        }
        Err(m) => {
            ensure!(hard, "soft-fault-fatal", "{how}: failed with: {m}");
            sim::count("probe.failure_reported");
        }
    }
    // the fault is over: running again in the same place completes
    let r = under(env2, move || j(Some(d2)));
    match r {
        Ok(res) => {
            ensure!(res == plain, "export-changes-result", "{how}: the result of the second attempt differs");
            if let Some(d) = differ(&want, &read_dir(&db)) {
                return violation("not-recovered", format!("{how}: after a second, fault-free attempt {d}"));
            }
        }
        Err(m) => return violation("not-recovered", format!("{how}: the second, fault-free attempt failed with: {m}")),
    }
    wipe(&root);
    sim::event("files", hash(&want.keys().collect::<Vec<_>>()));
    Ok(Outcome {
        nontrivial: rep.fired,
        signature: hash(&(format!("{fault:?}"), struck, at, ok, want.keys().collect::<Vec<_>>())),
        sample: format!("{how}: {} files, {}", want.len(), if ok { "succeeded" } else { "failed visibly, then recovered" }),
    })
}
