mod client;
mod core;
mod exec;
mod runner;
mod scn;
mod svc;
mod threads;

use std::time::Duration;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = scn::props();
    crate::core::install_panic_hook();
    threads::install_switch();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.scns.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if std::env::var_os("SIM_CHILD").is_none() {
                std::process::exit(runner::guarded(p, env_u64("VERIF_SEED", 1), &root));
            }
            let tier = args
                .get(2)
                .filter(|s| !s.starts_with("--"))
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let thorough = tier == "thorough";
            let o = runner::Opts {
                seed: env_u64("VERIF_SEED", 1),
                runs: opt("--runs").and_then(|s| s.parse().ok()),
                start: opt("--start").and_then(|s| s.parse().ok()).unwrap_or(0),
                threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                wall: Duration::from_secs(
                    opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 120 }),
                ),
                tier,
                root,
                progress: std::env::var("SIM_PROGRESS").ok(),
                write_evidence: !args.iter().any(|a| a == "--no-evidence"),
            };
            runner::check(p, &o)
        }
        Some("replay") => {
            let path = args.get(1).cloned().unwrap_or_default();
            runner::replay(&props, &path, args.iter().any(|a| a == "--quiet"))
        }
        Some("one") => {
            // one ID INDEX TEE [CHOICES]
            let id = args.get(1).cloned().unwrap_or_default();
            let i: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let p = props.iter().find(|p| p.id == id).expect("property");
            runner::one(p, env_u64("VERIF_SEED", 1), i, args.get(4).map(|s| s.as_str()), &args[3])
        }
        Some("trace") => {
            // trace ID INDEX
            let id = args.get(1).cloned().unwrap_or_default();
            let i: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let p = props.iter().find(|p| p.id == id).expect("property");
            let s = &p.scns[runner::scn_of(p, i)];
            let seed = runner::run_seed(env_u64("VERIF_SEED", 1), p.id, i);
            let o = runner::execute(s.run, crate::core::Source::Random(crate::core::Rng::new(seed)), true, &|_| {});
            for l in o.trace.iter().flatten() {
                println!("{l}");
            }
            println!("{:?} {:?}", o.violation, o.counters);
            0
        }
        Some("hashes") => {
            // hashes ID START N : event-log hashes, for cross-process determinism tests
            let id = args.get(1).cloned().unwrap_or_default();
            let st: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(100);
            let threads: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let p = props.iter().find(|p| p.id == id).expect("property");
            let out = std::sync::Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for w in 0..threads {
                    let (out, p) = (&out, &p);
                    sc.spawn(move || {
                        for i in (st + w..st + n).step_by(threads as usize) {
                            let s = &p.scns[runner::scn_of(p, i)];
                            let seed = runner::run_seed(env_u64("VERIF_SEED", 1), p.id, i);
                            let o = runner::execute(s.run, crate::core::Source::Random(crate::core::Rng::new(seed)), false, &|_| {});
                            out.lock().unwrap().push((i, o.hash, o.violation.is_some()));
                        }
                    });
                }
            });
            let mut v = out.into_inner().unwrap();
            v.sort();
            for (i, h, b) in v {
                println!("{i} {h:016x} {b}");
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID [quick|thorough] | replay FILE | trace ID I | hashes ID START N [THREADS] | list");
            2
        }
    };
    std::process::exit(code);
}
