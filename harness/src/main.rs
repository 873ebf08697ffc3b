#![allow(dead_code)]
mod runner;
mod scen;
mod sim;
/// the shipped binary's entry point
mod cli_main {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/rudof_cli/src/main.rs"));
    pub fn run() -> anyhow::Result<()> {
        main()
    }
}
#[global_allocator]
static A: sim::alloc::SimAlloc = sim::alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok());
    let verif = get("--verif").unwrap_or_else(|| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => runner::worker_main(scen::find),
        Some("check") => {
            let Some(sc) = scen::find(&a[2]) else {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2)
            };
            let tier = if get("--tier").as_deref() == Some("thorough") { runner::Tier::Thorough } else { runner::Tier::Quick };
            let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok())).unwrap_or(1);
            std::process::exit(runner::check(sc, tier, seed, &verif, num("--runs"), num("--secs")))
        },
        Some("replay") => {
            let t = std::fs::read(&a[2]).expect("replay file");
            let rep: runner::Replay = serde_json::from_slice(&t).expect("replay file");
            let sc = scen::find(&rep.property).expect("property");
            std::process::exit(runner::replay(sc, &rep))
        },
        Some("one") => {
            // one seed, everything shown
            let sc = scen::find(&a[2]).expect("property");
            let tier = if get("--tier").as_deref() == Some("thorough") { runner::Tier::Thorough } else { runner::Tier::Quick };
            let seed = num("--seed").unwrap_or(1);
            let mut p = runner::Pool::new(1);
            let workload = get("--workload").map(|f| serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap());
            let j = runner::Job { prop: a[2].clone(), seed, tier, workload, traces: None, want: true };
            let r = p.map(&[j]).remove(0);
            println!("workload {}", r.workload.as_ref().unwrap());
            for (i, o) in r.outs.iter().flatten().enumerate() {
                println!("--- life {i}: {} {} {}", o.status, o.msg, o.stats);
                for h in &o.history {
                    println!("  {}", h.to_string().chars().take(700).collect::<String>());
                }
                println!("  extra {}", o.extra.to_string().chars().take(1500).collect::<String>());
                println!("  faults {:?}", o.trace.faults);
                if !o.stderr.is_empty() {
                    println!("  stdout: {}", String::from_utf8_lossy(&o.stdout_bytes()));
                    println!("  stderr: {}", o.stderr);
                }
            }
            println!("verdict {:?} hash {}", r.verdict, r.hash);
            let _ = sc;
        },
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.property());
            }
        },
        _ => {
            eprintln!("usage: dst check <property> [--tier quick|thorough] [--seed N] | replay <file> | one <property> --seed N | list");
            std::process::exit(2)
        },
    }
}
