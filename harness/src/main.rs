mod checks;
mod core;
mod fmt;
mod model;

use crate::core::{Ctx, Tier};
use std::path::PathBuf;

/// Abort (a crash that is attributed to a case) instead of using up all memory
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if args.get(1).map(|s| s.as_str()) == Some("--helper") {
        checks::helper(&args[2..]);
        return;
    }
    let prop = args.get(1).expect("usage: cresv PROPERTY [--tier T] [--seed N] ...").clone();
    let tier = match get("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").map(PathBuf::from);
    let replay_dir = PathBuf::from(get("--replay-dir").unwrap_or_else(|| "replay".into()));
    std::fs::create_dir_all(&replay_dir).unwrap();
    let replay = get("--replay").map(|f| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        (v["part"].as_str().unwrap().to_string(), v["case"].clone())
    });
    core::install_panic_hook();
    limit_memory();
    core::watch::start(core::watch::Conf {
        prop: prop.clone(),
        replay_dir: replay_dir.clone(),
        out: out.clone(),
        limit: std::time::Duration::from_secs(std::env::var("CRESV_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => 150,
            Tier::Thorough => 1200,
        })),
    });
    let mut ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        shards: get("--shards").and_then(|s| s.parse().ok()).unwrap_or(8),
        replay_dir,
        replay,
        replay_matched: false,
        only: get("--part"),
        violations: vec![],
        evaluations: 0,
        nontrivial: Default::default(),
        labels: Default::default(),
        samples: vec![],
        parts: vec![],
    };
    let t0 = std::time::Instant::now();
    let rule = checks::run(&mut ctx);
    let wall = t0.elapsed().as_secs_f64();
    if ctx.replaying() {
        std::process::exit(if !ctx.replay_matched {
            2
        } else if ctx.violations.is_empty() {
            0
        } else {
            1
        });
    }
    let doc = serde_json::json!({
        "property": ctx.prop,
        "build": if cfg!(feature = "multi") { "multiweight" } else { "single-weight" },
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": ctx.nontrivial.len(),
        "rule": rule,
        "samples": ctx.samples,
        "classes": ctx.labels,
        "parts": ctx.parts,
        "wall_s": wall,
        "violations": ctx.violations.iter().map(|v| serde_json::json!({
            "part": v.part, "message": v.message, "replay": v.replay,
        })).collect::<Vec<_>>(),
    });
    if let Some(out) = out {
        std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&doc).unwrap());
    }
    std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
}
