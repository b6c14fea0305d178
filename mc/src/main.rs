//! `mc check <property> <tier> <evidence dir>` decides one property by exhaustive exploration;
//! `mc replay <file>` re-executes a recorded counterexample.

mod alpha;
mod cases;
mod engine;
mod pb;
mod props;
mod world;

use std::process::exit;
use std::time::Instant;

use serde_json::{json, Value as Json};

use engine::Report;

fn run(id: &str, deep: bool, rep: &mut Report) -> bool {
    if deep {
        engine::EXTEND.store(60_000, std::sync::atomic::Ordering::Relaxed);
    }
    use props::*;
    match id {
        "C01" => access::c01(rep, deep),
        "C02" => access::c02(rep, deep),
        "C03" => channel::c03(rep, deep),
        "C04" => channel::c04(rep, deep),
        "C05" => channel::c05(rep, deep),
        "C06" => channel::c06(rep, deep),
        "C07" => channel::c07(rep, deep),
        "C08" => channel::c08(rep, deep),
        "C09" => channel::c09(rep, deep),
        "C10" => packets::c10(rep, deep),
        "C11" => packets::c11(rep, deep),
        "C12" => packets::c12(rep, deep),
        "C13" => queries::c13(rep, deep),
        "C14" => queries::c14(rep, deep),
        "C15" => queries::c15(rep, deep),
        "C16" => callbacks::c16(rep, deep),
        "C17" => callbacks::c17(rep, deep),
        "C18" => callbacks::c18(rep, deep),
        "C19" => migrate::c19(rep, deep),
        "C20" => helpers::c20(rep, deep),
        "C21" => interface::c21(rep, deep),
        "C22" => access::c22(rep, deep),
        "C23" => interface::c23(rep, deep),
        "C24" => interface::c24(rep, deep),
        "C25" => general::c25(rep, deep),
        "C26" => general::c26(rep, deep),
        "C27" => general::c27(rep, deep),
        _ => return false,
    }
    true
}

fn main() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !world::QUIET.with(std::cell::Cell::get) {
            default(i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("check") => check(&a[2], &a[3], &a[4]),
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: mc check <property> <tier> <evidence dir> | mc replay <file>");
            exit(2);
        }
    }
}

fn replay(file: &str) {
    let v: Json = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
    let t = &v["trace"];
    let acts = t.get("actions").map(|a| serde_json::from_value(a.clone()).expect("actions"));
    let idx = t["index"].as_u64().map(|i| i as usize);
    engine::REPLAY.set((v["config"].as_str().unwrap().into(), acts, idx)).unwrap();
    let mut rep = Report::default();
    run(v["property"].as_str().unwrap(), v["tier"] == "thorough", &mut rep);
    match rep.violation {
        Some(x) => {
            println!("violated again: {}", x.message);
            exit(1);
        }
        None => println!("not violated on this tree"),
    }
}

fn check(id: &str, tier: &str, dir: &str) {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rep = Report::default();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(id, tier == "thorough", &mut rep))) {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown property {id}");
            exit(2);
        }
        // on a tree whose behaviour is the expected one the machinery does not panic
        Err(_) if rep.violation.is_some() => {}
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            rep.violation = Some(engine::Violation { config: String::new(), message: format!("uninterpretable behaviour: {m}"), trace: Json::Null });
        }
    }
    std::fs::create_dir_all(dir).expect("evidence dir");
    let mut vio = None;
    if let Some(v) = &rep.violation {
        std::fs::create_dir_all(format!("{dir}/replay")).expect("replay dir");
        let path = format!("{dir}/replay/{id}.json");
        let doc = json!({"property": id, "tier": tier, "config": v.config, "violation": v.message, "trace": v.trace});
        std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).expect("replay file");
        vio = Some((path, v.message.clone()));
    }
    rep.samples.truncate(12);
    let depths: Vec<String> = rep.explorations.iter().filter(|e| e["depth"].as_u64() > Some(0)).map(|e| format!("{}: {} transactions{}", e["config"].as_str().unwrap_or(""), e["depth"], if e["state_space_closed_before_depth_bound"] == json!(true) { " (no further state exists)" } else { "" })).collect();
    if !depths.is_empty() {
        rep.bounds.push(format!("depth of the histories: {}", depths.join("; ")));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": rep.states,
            "transitions": rep.transitions,
            "traces_validated_against_impl": rep.validated,
            "probe_transitions": rep.probes,
            "accepted_steps": rep.accepted,
            "rejected_steps": rep.rejected,
            "samples": rep.samples,
            "explorations": rep.explorations,
            "bounds": rep.bounds,
            "exhaustive": true,
            "binding": "every transition is a call of the real entry points compiled from /repo; there is no separate model of the contract. traces_validated_against_impl counts complete histories re-executed from the empty chain and compared state by state, plus enumerated cases, each executed on the implementation.",
        },
        "assumptions": [
            "wasmd/ibc-go environment as modelled in mc/src/world.rs (atomic transactions, depth-first submessages, channel and packet life cycle)",
            "cosmwasm-std, cw-ownable, cw-storage-plus and prost are the versions in mc/Cargo.lock",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(vio.is_some()),
    });
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    for e in &rep.explorations {
        println!("{e}");
    }
    if let Some((p, m)) = vio {
        println!("{m}");
        println!("VIOLATION property={id} replay={p}");
        exit(1);
    }
    println!("OK property={id} states={} transitions={} wall={:.1}s", rep.states, rep.transitions, t0.elapsed().as_secs_f64());
}
