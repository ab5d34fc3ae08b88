mod driver;
mod gen;
mod props;
mod seams;
mod vm;

use driver::{Cx, Prop};
use std::path::{Path, PathBuf};

#[global_allocator]
static GLOBAL: seams::A = seams::A;

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"))
}
fn cx(thorough: bool) -> Cx {
    let scratch = PathBuf::from(std::env::var("SIM_SCRATCH").unwrap_or_else(|_| format!("{}/powdr-sim.x{}", std::env::temp_dir().display(), std::process::id())));
    std::fs::create_dir_all(&scratch).unwrap();
    Cx { thorough, scratch }
}

fn main() {
    seams::disable_aslr();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    driver::install_panic_hook();
    props::install_observers();
    match cmd {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok());
            let cap = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok());
            std::process::exit(driver::check(find(&a[2]), tier == "thorough", seed, runs, cap));
        }
        "work" => {
            let n = |k: usize| a[k].parse::<u64>().unwrap();
            driver::worker(find(&a[2]), &cx(a[3] == "thorough"), n(4), n(5), n(6), n(7), n(8));
        }
        "rerun" => {
            let seed = a[4].parse::<u64>().unwrap();
            for i in a[5].split(',') {
                let i = i.parse::<u64>().unwrap();
                driver::worker(find(&a[2]), &cx(a[3] == "thorough"), seed, i, i + 1, 1, 1000);
            }
        }
        "minimise" | "confirm" => {
            let path = Path::new(&a[3]);
            let r: driver::Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
            let p = find(&a[2]);
            if cmd == "minimise" {
                driver::minimise(p, &cx(r.thorough), path, std::time::Duration::from_secs(a[4].parse().unwrap()));
            } else {
                std::process::exit(driver::replay(p, &cx(r.thorough), path, true));
            }
        }
        "replay" => {
            let path = Path::new(&a[2]);
            let r: driver::Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
            std::process::exit(driver::replay(find(&r.property), &cx(r.thorough), path, false));
        }
        "list" => props::ALL.iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: sim check ID [quick|thorough] | replay FILE | list");
            std::process::exit(2);
        }
    }
}
