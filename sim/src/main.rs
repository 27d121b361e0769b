mod canon;
mod choice;
mod cli;
mod corrupt;
mod formats;
mod gen;
mod idl;
mod mutate;
mod ops;
mod props;
mod run;
mod reference;
mod runner;
mod sched;
mod streams;
mod verdict;

#[global_allocator]
static ALLOC: sched::PointAlloc = sched::PointAlloc;

use choice::Choices;
use std::path::PathBuf;

fn main() {
    run::install_panic_hook();
    let argv: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        argv.iter()
            .position(|a| a == k)
            .and_then(|i| argv.get(i + 1))
            .cloned()
    };
    let num = |k: &str, d: u64| -> u64 { get(k).and_then(|v| v.parse().ok()).unwrap_or(d) };
    let env_seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(1);
    let verif = PathBuf::from(get("--verif").unwrap_or_else(|| "/verif".into()));
    let a = runner::Args {
        prop: get("--property").unwrap_or_default(),
        tier: get("--tier").unwrap_or_else(|| "quick".into()),
        seed: num("--seed", env_seed),
        verif: verif.clone(),
        runs: get("--runs").and_then(|v| v.parse().ok()),
        workers: num("--workers", 8) as usize,
    };
    let tape = || -> Vec<u64> {
        let f = get("--tape").expect("--tape");
        serde_json::from_slice(&std::fs::read(f).expect("tape")).expect("tape json")
    };
    let code = match argv.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&a),
        Some("worker") => runner::worker(
            &a,
            num("--shard", 0),
            num("--shards", 1),
            num("--total", 1),
            get("--deadline").and_then(|v| v.parse().ok()).unwrap_or(60.0),
            &PathBuf::from(get("--out").expect("--out")),
        ),
        Some("one") => {
            let trace = argv.iter().any(|x| x == "--trace");
            let c = if get("--tape").is_some() {
                Choices::replay(&tape())
            } else {
                let mut c = Choices::search(a.seed);
                if let Some(j) = get("--journal") {
                    c.journal_to(&j);
                }
                c
            };
            runner::one(&a, c, trace)
        }
        Some("shrink") => runner::shrink(
            &a,
            tape(),
            &get("--class").expect("--class"),
            get("--budget").and_then(|v| v.parse().ok()).unwrap_or(20.0),
        ),
        Some("replay") => runner::replay(&verif, &PathBuf::from(&argv[2])),
        Some("read") => {
            let b = std::fs::read(&argv[3]).expect("file");
            let lang = if argv[2] == "json" { formats::Lang::Json } else { formats::Lang::Idl };
            match lang.read_bytes(&b) {
                Ok(m) => println!("{}", canon::to_json(&canon::canon(&m))),
                Err(e) => println!("error: {}", e.chars().take(300).collect::<String>()),
            }
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
