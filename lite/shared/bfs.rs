//! Breadth-first exploration of a contract with its own alphabet; prints a report for `mc`.

use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

use cosmwasm_std::{Order, Record, Storage};
use serde_json::{json, Value as Json};

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let (s, e) = (start.map(<[u8]>::to_vec), end.map(<[u8]>::to_vec));
        let mut v: Vec<Record> = self.0.iter().filter(|(k, _)| s.as_ref().is_none_or(|s| *k >= s) && e.as_ref().is_none_or(|e| *k < e)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
}

pub trait Model {
    type State: Clone + std::hash::Hash + Eq;
    type Act: Clone + std::fmt::Debug;
    fn init(&self) -> Self::State;
    fn acts(&self, s: &Self::State) -> Vec<Self::Act>;
    /// executes and judges one transaction
    fn step(&self, s: &Self::State, a: &Self::Act) -> Result<Self::State, String>;
}

pub fn run<M: Model>(name: &str, m: &M, depth: usize) {
    let t0 = Instant::now();
    let mut seen: HashSet<M::State> = HashSet::new();
    let init = m.init();
    seen.insert(init.clone());
    let mut frontier: Vec<(M::State, Vec<M::Act>)> = vec![(init.clone(), vec![])];
    let (mut trans, mut layers) = (0u64, vec![1]);
    let mut violation = Json::Null;
    'all: for _ in 0..depth {
        let mut next = vec![];
        for (s, h) in &frontier {
            for a in m.acts(s) {
                trans += 1;
                match m.step(s, &a) {
                    Ok(n) => {
                        if seen.insert(n.clone()) {
                            let mut h = h.clone();
                            h.push(a);
                            next.push((n, h));
                        }
                    }
                    Err(e) => {
                        let mut h: Vec<String> = h.iter().map(|a| format!("{a:?}")).collect();
                        h.push(format!("{a:?}"));
                        violation = json!({"message": e, "history": h});
                        break 'all;
                    }
                }
            }
        }
        layers.push(next.len());
        if next.is_empty() {
            break;
        }
        frontier = next;
    }
    // re-execute complete histories from the start
    let mut validated = 0;
    let mut sample = vec![];
    if violation.is_null() {
        for (s, h) in frontier.iter().step_by((frontier.len() / (640 / (depth + 1)).clamp(4, 64)).max(1)) {
            let mut w = init.clone();
            for a in h {
                match m.step(&w, a) {
                    Ok(n) => w = n,
                    Err(e) => violation = json!({"message": format!("on re-execution: {e}"), "history": h.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()}),
                }
            }
            if w != *s {
                eprintln!("non-deterministic execution");
                std::process::exit(2);
            }
            validated += 1;
            sample = h.iter().map(|a| format!("{a:?}").chars().take(240).collect::<String>()).collect();
        }
    }
    let line = format!(
        "{}\n",
        json!({"config": name, "depth": depth, "states": seen.len(), "transitions": trans, "validated": validated, "layers": layers, "sample": sample, "violation": violation, "seconds": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0})
    );
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    o.write_all(line.as_bytes()).unwrap();
    o.flush().unwrap();
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
