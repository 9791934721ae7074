//! Worker of the monitors: `vh run <property> ...`, `vh replay <property> <stage> <idx> ...`,
//! `vh selftest`, `vh list`. The driver (check.py) builds and calls it.

#![allow(dead_code)]

mod alloc;
mod gen;
mod props;
mod refhpack;
mod refhuff;
mod refproto;
mod rng;
mod rt;
mod selftest;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

use rt::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    match args.first().map(|s| &s[..]) {
        Some("list") => {
            for p in props::all() {
                println!("{}: {}", p.id, p.stages.iter().map(|s| format!("{} ({}/{})", s.name, s.quick, s.thorough)).collect::<Vec<_>>().join(", "));
            }
        }
        Some("firstuse") => {
            rt::install_hook();
            println!("{}", props::x::first_use_child(args[1].parse().expect("seed")));
        }
        Some("selftest") => selftest::run(),
        Some(cmd @ ("run" | "replay")) => {
            let id = &args[1];
            let p = props::all().into_iter().find(|p| p.id == *id).expect("unknown property");
            let mut o = Opts {
                seed: num("--seed", 1),
                tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
                threads: num("--threads", 8) as usize,
                slots: get("--slots"),
                scale_pm: num("--scale", 1000),
                hang_cpu_s: num("--hang", 30),
                only: None,
                budget_s: num("--budget", 36000),
                sampled: num("--sampled", 0),
            };
            if cmd == "replay" {
                let stage = &args[2];
                let si = p.stages.iter().position(|s| s.name == *stage).expect("unknown stage");
                o.only = Some((si, args[3].parse().expect("index")));
            }
            let r = run(&p, &o);
            let j = to_json(&p, &r);
            match get("--out") {
                Some(f) => std::fs::write(f, j).expect("write report"),
                None => println!("{}", j),
            }
            if !r.harness_errors.is_empty() {
                std::process::exit(3);
            }
            if !r.violations.is_empty() {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: vh run|replay|selftest|list");
            std::process::exit(2);
        }
    }
}
