//! Orchestrator of the deterministic simulation.
#![allow(dead_code, unused_imports)]
mod check;
mod load;
mod nav;
mod report;
mod fresh;
mod gen;
mod meas;
mod mjudge;
mod run;
mod tui;
mod tuijudge;
mod world;

use run::*;

fn num(s: &str) -> u64 {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).expect("number"),
        None => s.parse().expect("number"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let flag = |k: &str| a.iter().any(|x| x == k);
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let env = |k: &str| std::env::var(k).ok();
            let tier = get("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
            let seed = get("--seed").or(env("VERIF_SEED")).map(|s| num(&s)).unwrap_or(1);
            let seconds = get("--seconds").map(|s| s.parse().unwrap()).unwrap_or(if tier == "thorough" { 600.0 } else { 40.0 });
            check::check(check::Opts {
                prop: a[1].clone(),
                seed,
                tier,
                seconds,
                max_cases: get("--cases").map(|s| num(&s)).unwrap_or(u64::MAX),
                threads: get("--threads").map(|s| num(&s) as usize).unwrap_or(8),
                build: !flag("--no-build"),
                survey: flag("--survey"),
            })
        }
        Some("replay") => check::replay(&a[1], flag("--show")),
        // Show one case
        Some("show") => {
            let mut case = check::generate(&a[1], num(&a[2]));
            if flag("--verbose") {
                for s in &mut case.sessions {
                    s.sc.verbose = true;
                }
            }
            let mut rn = Runner::new(&check::verif(), allowed_cpus().first().copied());
            if flag("--scenario") {
                println!("{}", serde_json::to_string_pretty(&case).unwrap());
            }
            let runs = run_case(&mut rn, &case);
            for r in &runs {
                for (l, t) in r.lines.iter().zip(r.text(usize::MAX)) {
                    if flag("--screens") && l.k == "SCREEN" {
                        println!("{:.6} T{} SCREEN {} {} {}", l.t as f64 / 1e9, l.tid, l.s(0), l.s(1), l.s(2));
                        for i in 3..l.f.len() {
                            if !l.s(i).trim().is_empty() {
                                println!("    |{}", l.s(i));
                            }
                        }
                    } else {
                        println!("{t}");
                    }
                }
                println!("harness: {:?} signal {} code {} stats {:?}", r.harness_error, r.signal, r.code, r.stats);
            }
            let vd = check::judge(&case, &runs);
            for b in &vd.bad {
                println!("BAD {} {}", b.0, b.1);
            }
            0
        }
        _ => {
            eprintln!("usage: simctl check PROP [--tier T] [--seed N] [--seconds S] [--survey] | replay FILE [--show] | show PROP SEED");
            2
        }
    };
    std::process::exit(code);
}
