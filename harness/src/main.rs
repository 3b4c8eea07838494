mod defaults;
mod drawing;
mod engine;
mod gen;
mod flags;
mod hostile;
mod model;
mod probe;
mod props;
mod reflect;
mod tables;
mod wire;
mod wireval;
mod machine;
mod refs;
mod special;

use engine::Opts;
use std::path::PathBuf;

#[global_allocator]
static A: engine::Counting = engine::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("probe") => {
            probe::main();
            0
        }
        Some("defaults") => {
            probe::defaults();
            0
        }
        Some("segments") => {
            probe::segments();
            0
        }
        Some("sample") => {
            probe::sample(&a[2], a[3].parse().unwrap());
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("check") => {
            let p = find(&a[2]);
            let tier = a.get(3).cloned().filter(|s| !s.is_empty()).unwrap_or_else(|| "quick".into());
            let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
            let o = Opts { seed, tier: tier.clone(), root, cases };
            if tier == "replay" {
                engine::replay(p, &o, &PathBuf::from(&a[4]))
            } else {
                engine::run(p, &o)
            }
        }
        Some("one") => {
            engine::one(find(&a[2]), seed, a[3].parse().unwrap());
            0
        }
        Some("survey") => {
            engine::survey(find(&a[2]), seed, a[3].parse().unwrap(), &root);
            0
        }
        Some("worker") => {
            let p = find(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let o = Opts { seed: n(3), tier: String::new(), root: PathBuf::from(&a[8]), cases: None };
            engine::worker(p, &o, n(4), n(5), n(6), &PathBuf::from(&a[7]))
        }
        _ => {
            eprintln!("usage: vharness check <id> [quick|thorough|replay FILE]");
            2
        }
    };
    std::process::exit(code);
}
