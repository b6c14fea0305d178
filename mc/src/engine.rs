//! Breadth-first explicit-state exploration of the real contract inside the modelled chain.

use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value as Json};

use crate::world::{step, Act, Rec, World};

pub type GenFn<'a> = &'a (dyn Fn(&World) -> Vec<Act> + Sync);
pub type MonFn<'a> = &'a (dyn Fn(&World, &Act, &Rec, &World) -> Result<(), String> + Sync);

pub struct Cfg<'a> {
    pub name: String,
    pub root: World,
    pub depth: usize,
    /// actions whose results are explored further
    pub gen: GenFn<'a>,
    /// actions tried in every reached state but not explored further
    pub probe: GenFn<'a>,
    pub mon: MonFn<'a>,
}

/// Set in replay mode: (configuration, actions or case number).
pub static REPLAY: std::sync::OnceLock<(String, Option<Vec<Act>>, Option<usize>)> = std::sync::OnceLock::new();

pub struct Violation {
    pub config: String,
    pub message: String,
    pub trace: Json,
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub probes: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub validated: u64,
    pub closed: bool,
    pub explorations: Vec<Json>,
    pub samples: Vec<Json>,
    pub violation: Option<Violation>,
    pub bounds: Vec<String>,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

pub fn none(_: &World) -> Vec<Act> {
    vec![]
}

/// Runs `f` over `0..n` on all cores and returns the results in order.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| {
                let mut loc = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    loc.push((i, f(i)));
                }
                out.lock().unwrap().extend(loc);
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

struct Node {
    parent: u32,
    act: u32,
}

fn path(nodes: &[Node], mut i: u32) -> Vec<u32> {
    let mut v = vec![];
    while i != 0 {
        v.push(nodes[i as usize].act);
        i = nodes[i as usize].parent;
    }
    v.reverse();
    v
}

/// Re-executes a path of action indices from the root.
fn rerun(cfg: &Cfg, p: &[u32]) -> (World, Vec<Act>) {
    let mut w = cfg.root.clone();
    let mut acts = vec![];
    for i in p {
        let a = (cfg.gen)(&w)[*i as usize].clone();
        w = step(&w, &a).0;
        acts.push(a);
    }
    (w, acts)
}

fn describe(cfg: &Cfg, acts: &[Act]) -> Json {
    let mut w = cfg.root.clone();
    let mut v = vec![];
    for a in acts {
        let (n, r) = step(&w, a);
        v.push(json!({
            "action": a,
            "accepted": r.accepted,
            "error": r.err,
            "calls": r.calls.iter().map(|c| json!({"entry": c.entry, "ok": c.ok, "messages": c.msgs.iter().map(|m| serde_json::to_value(&m.msg).unwrap_or_default()).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "channel": n.q_channel().unwrap_or(Json::Null),
        }));
        w = n;
    }
    v.into()
}

pub fn acts_json(acts: &[Act]) -> Json {
    serde_json::to_value(acts).unwrap()
}

struct Out {
    trans: u64,
    probes: u64,
    acc: u64,
    rej: u64,
    next: Vec<(u128, u32, World)>,
    bad: Option<(Act, String)>,
}

/// Explores a configuration under the faithful core and once more under the looser one
/// (`Params::loose`).
pub fn explore(rep: &mut Report, cfg: &Cfg) {
    explore_one(rep, cfg);
    explore_one(rep, &Cfg { name: format!("{} (loose core)", cfg.name), root: cfg.root.loosened(), depth: cfg.depth, gen: cfg.gen, probe: cfg.probe, mon: cfg.mon });
}

/// Calls a monitor or judge; a panic in it means that the observed behaviour is not one it can
/// even interpret.
fn judged<T>(f: impl FnOnce() -> T, bad: impl FnOnce(String) -> T) -> T {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(p) => bad(format!("uninterpretable behaviour: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

/// In the thorough tier explorations go on beyond their depth bound, layer by layer, as long as the
/// last layer has at most this many states (all layers together ten times as many) and the transitions
/// stay below a hundred times as many.
pub static EXTEND: AtomicUsize = AtomicUsize::new(0);

fn explore_one(rep: &mut Report, cfg: &Cfg) {
    if rep.violation.is_some() {
        return;
    }
    let t0 = Instant::now();
    if let Some((name, acts, _)) = REPLAY.get() {
        if *name == cfg.name {
            let mut w = cfg.root.clone();
            for (i, a) in acts.as_ref().unwrap().iter().enumerate() {
                let (n, r) = step(&w, a);
                println!("step {i}: {a:?}");
                println!("   accepted: {} {}", r.accepted, r.err);
                for c in &r.calls {
                    println!("   call {} ok={} {} messages={:?} events={:?}", c.entry, c.ok, c.err, c.msgs, c.events);
                }
                println!("   channel: {:?}  state: {:?}  ownership: {:?}", n.q_channel().ok(), n.q_state().ok(), n.q_owner().ok());
                if let Err(e) = judged(|| (cfg.mon)(&w, a, &r, &n), Err) {
                    rep.violation = Some(Violation { config: name.clone(), message: e, trace: json!({"kind": "history", "actions": acts}) });
                    return;
                }
                w = n;
            }
        }
        return;
    }
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(cfg.root.key());
    let mut nodes = vec![Node { parent: 0, act: 0 }];
    let mut frontier: Vec<(u32, World)> = vec![(0, cfg.root.clone())];
    let (mut trans, mut probes, mut acc, mut rej) = (0u64, 0u64, 0u64, 0u64);
    let mut closed = false;
    let mut layers = vec![];
    let extend = EXTEND.load(Ordering::Relaxed);
    for d in 0.. {
        layers.push(frontier.len());
        let stop = AtomicBool::new(false);
        // beyond the depth bound layers are added while they are small enough
        let cost = frontier.len() as u64 * (1 + (trans + probes) / seen.len() as u64);
        let last = d >= cfg.depth && (frontier.len() > extend || seen.len() > 10 * extend || cost > 50 * extend as u64 || trans + probes > 100 * extend as u64);
        let chunk = 64;
        let nch = frontier.len().div_ceil(chunk);
        let outs: Vec<Vec<(usize, Out)>> = par(nch, |c| {
            let mut res = vec![];
            if stop.load(Ordering::Relaxed) {
                return res;
            }
            for fi in c * chunk..((c + 1) * chunk).min(frontier.len()) {
                let w = &frontier[fi].1;
                let mut o = Out { trans: 0, probes: 0, acc: 0, rej: 0, next: vec![], bad: None };
                let go = |a: &Act, o: &mut Out| -> Option<World> {
                    let (n, r) = step(w, a);
                    if r.accepted {
                        o.acc += 1;
                    } else {
                        o.rej += 1;
                    }
                    if let Err(e) = judged(|| (cfg.mon)(w, a, &r, &n), Err) {
                        o.bad = Some((a.clone(), e));
                        return None;
                    }
                    Some(n)
                };
                let acts = |f: GenFn, o: &mut Out| {
                    judged(
                        || Ok(f(w)),
                        Err,
                    )
                    .unwrap_or_else(|e| {
                        o.bad = Some((Act::Noop, e));
                        vec![]
                    })
                };
                for a in acts(cfg.probe, &mut o) {
                    o.probes += 1;
                    if go(&a, &mut o).is_none() {
                        break;
                    }
                }
                if !last && o.bad.is_none() {
                    for (i, a) in acts(cfg.gen, &mut o).into_iter().enumerate() {
                        o.trans += 1;
                        match go(&a, &mut o) {
                            None => break,
                            Some(n) => {
                                let k = n.key();
                                if !seen.contains(&k) && !o.next.iter().any(|x| x.0 == k) {
                                    o.next.push((k, i as u32, n));
                                }
                            }
                        }
                    }
                }
                let bad = o.bad.is_some();
                res.push((fi, o));
                if bad {
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
            }
            res
        });
        let mut next = vec![];
        for (fi, o) in outs.into_iter().flatten() {
            trans += o.trans;
            probes += o.probes;
            acc += o.acc;
            rej += o.rej;
            if let Some((a, e)) = o.bad {
                let (_, mut acts) = rerun(cfg, &path(&nodes, frontier[fi].0));
                acts.push(a);
                rep.violation = Some(Violation {
                    config: cfg.name.clone(),
                    message: e,
                    trace: json!({"kind": "history", "actions": acts_json(&acts), "steps": describe(cfg, &acts)}),
                });
                break;
            }
            for (k, i, w) in o.next {
                if seen.insert(k) {
                    nodes.push(Node { parent: frontier[fi].0, act: i });
                    next.push(((nodes.len() - 1) as u32, w));
                }
            }
        }
        if rep.violation.is_some() {
            break;
        }
        if last {
            break;
        }
        if next.is_empty() {
            closed = true;
            break;
        }
        frontier = next;
    }
    // validate: re-execute complete histories from the empty chain and compare the reached states
    let mut validated = 0u64;
    if rep.violation.is_none() {
        let n = frontier.len();
        let stepn = (n / 64).max(1);
        let idx: Vec<usize> = (0..n).step_by(stepn).collect();
        let res = par(idx.len(), |j| {
            let (id, w) = &frontier[idx[j]];
            judged(
                || {
                    let (r, acts) = rerun(cfg, &path(&nodes, *id));
                    (r.key() == w.key(), acts)
                },
                |_| (false, vec![]),
            )
        });
        for (ok, acts) in &res {
            if !*ok {
                rep.violation = Some(Violation { config: cfg.name.clone(), message: "the same history leads to different states".into(), trace: json!({"kind": "history", "actions": acts_json(acts)}) });
                break;
            }
            validated += 1;
        }
        if let Some((_, acts)) = res.last() {
            rep.samples.push(json!({"config": cfg.name, "history": acts.iter().map(|a| format!("{a:?}").chars().take(240).collect::<String>()).collect::<Vec<_>>()}));
        }
    }
    rep.states += seen.len() as u64;
    rep.transitions += trans + probes;
    rep.probes += probes;
    rep.accepted += acc;
    rep.rejected += rej;
    rep.validated += validated;
    rep.explorations.push(json!({
        "config": cfg.name, "depth": layers.len() - 1, "states": seen.len(), "expanding_transitions": trans, "probe_transitions": probes,
        "accepted": acc, "rejected": rej, "layers": layers, "state_space_closed_before_depth_bound": closed,
        "histories_re_executed": validated, "seconds": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    }));
}

/// Exhaustive enumeration of an input space: `f` judges one case, returning the number of real
/// calls it made.
pub fn enumerate(rep: &mut Report, name: &str, n: usize, f: impl Fn(usize) -> Result<u64, (String, Json)> + Sync) {
    enumerate_as(rep, name, n, false, f);
}

/// As `enumerate`, where `f` judges a batch and returns the number of cases in it.
pub fn enumerate_batches(rep: &mut Report, name: &str, n: usize, f: impl Fn(usize) -> Result<u64, (String, Json)> + Sync) {
    enumerate_as(rep, name, n, true, f);
}

fn enumerate_as(rep: &mut Report, name: &str, n: usize, batches: bool, f: impl Fn(usize) -> Result<u64, (String, Json)> + Sync) {
    if rep.violation.is_some() {
        return;
    }
    let t0 = Instant::now();
    if let Some((c, _, idx)) = REPLAY.get() {
        if c == name {
            if let Err((e, case)) = judged(|| f(idx.unwrap()), |e| Err((e, Json::Null))) {
                println!("case: {case}");
                rep.violation = Some(Violation { config: name.into(), message: e, trace: json!({"kind": "case", "case": case, "index": idx}) });
            }
        }
        return;
    }
    let res = par(n, |i| judged(|| f(i), |e| Err((e, Json::Null))));
    let (mut calls, mut cases) = (0, 0);
    for (i, r) in res.into_iter().enumerate() {
        match r {
            // a case without any call was skipped (not applicable), it does not count
            Ok(c) => {
                calls += c;
                cases += if batches { c } else { u64::from(c > 0) };
            }
            Err((e, case)) => {
                rep.violation = Some(Violation { config: name.into(), message: e, trace: json!({"kind": "case", "case": case, "index": i}) });
                break;
            }
        }
    }
    rep.states += cases;
    rep.transitions += calls;
    rep.validated += cases;
    rep.explorations.push(json!({"config": name, "cases": cases, "calls": calls, "seconds": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0}));
}
