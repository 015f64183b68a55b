//! Driver: `mc check <ID> <quick|thorough>` decides one property, `mc replay <file>` re-runs a
//! recorded counterexample, `mc list` lists the properties.
mod explore;
mod props;
mod sim;
mod stub;
mod world;

use explore::{Ctx, Out};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
        .canonicalize()
        .unwrap()
}

fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.strip_prefix(id)?.trim_start().strip_prefix("sig="))
        .filter_map(|l| l.split_once(' '))
        .map(|(s, w)| (s.to_string(), w.to_string()))
        .collect()
}

fn main() {
    // contract panics are transaction errors (as in the VM), harness panics become violations
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), None),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            let tier = v["tier"].as_str().unwrap_or("quick").to_string();
            check(&id, &tier, Some(v))
        }
        _ => {
            for p in props::ALL {
                println!("{}", p.0);
            }
        }
    }
}

fn check(id: &str, tier: &str, replay: Option<Value>) {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let budget = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 7200 } else { 600 });
    let is_replay = replay.is_some();
    let mut ctx = Ctx {
        property: id.to_string(),
        thorough,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8),
        deadline: t0 + Duration::from_secs(budget),
        known: known(id),
        replay,
        out: Out {
            exhaustive: true,
            ..Default::default()
        },
    };
    let Some(p) = props::ALL.iter().find(|p| p.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    if let Err(v) = explore::guard(|| {
        (p.1)(&mut ctx);
        Ok(())
    }) {
        // a step of a scenario's setup, which must be possible, failed
        ctx.out.exhaustive = false;
        ctx.out.violations.push((v, json!({"property":id,"tier":tier,"setup":true})));
    }
    let o = &ctx.out;
    if is_replay {
        std::process::exit(if o.violations.is_empty() { 0 } else { 1 });
    }
    let txs = sim::TXS.load(std::sync::atomic::Ordering::Relaxed);
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": o.states,
            "transitions": o.transitions,
            "rejected_transitions": o.rejected,
            "traces_validated_against_impl": o.traces,
            "trace_validation": "every transition is executed by the real contract code; the reference model is compared with the contracts' answers after each one",
            "exhaustive": o.exhaustive,
            "scenarios": o.scenarios,
            "samples": o.samples,
        },
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": o.violations.len(),
    });
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (sig, msg) in &o.known_hit {
        let what = ctx.known.iter().find(|k| k.0 == *sig).map(|k| k.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {what} [{msg}]");
    }
    println!(
        "{id} {tier}: {} states, {} transitions, {} grid points, {} transactions, exhaustive={}, {:.1}s",
        o.states,
        o.transitions,
        o.points,
        txs,
        o.exhaustive,
        t0.elapsed().as_secs_f64()
    );
    if !o.violations.is_empty() {
        let rd = verif().join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        for (i, (v, art)) in o.violations.iter().enumerate() {
            let f = rd.join(format!("{id}-{i}.json"));
            std::fs::write(&f, serde_json::to_string_pretty(art).unwrap()).unwrap();
            println!("  [{}] {}", v.sig, v.msg);
            if let Some(st) = art["steps"].as_array() {
                for s in st {
                    println!("     {}", s["op"].as_str().unwrap_or(""));
                }
            } else {
                println!("     point {}", art["point"]);
            }
            println!("VIOLATION property={id} replay={}", f.display());
        }
        std::process::exit(1);
    }
    if o.states + o.points == 0 {
        eprintln!("{id}: nothing explored");
        std::process::exit(3);
    }
}
