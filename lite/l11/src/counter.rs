//! The example callback counter: all histories over its own alphabet.

use std::hash::{Hash, Hasher};

use callback_counter::contract;
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cosmwasm_std::{from_json, Addr, BlockInfo, ContractInfo, Deps, DepsMut, Empty, Env, MessageInfo, QuerierWrapper, Timestamp};
use serde_json::{json, Value as Json};

use crate::bfs::{quiet, run, Model, Store};

#[derive(Clone, PartialEq, Eq)]
struct S {
    inst: bool,
    store: Store,
    lists: [Vec<Json>; 3],
}
impl Hash for S {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.store.hash(h);
    }
}

#[derive(Clone, Debug)]
enum A {
    Inst,
    Callback { from: String, body: Json },
}

struct M;

fn packet(seq: u64) -> Json {
    json!({"data": "AQ==", "src": {"port_id": "a", "channel_id": "channel-0"}, "dest": {"port_id": "b", "channel_id": "channel-1"}, "sequence": seq, "timeout": {"block": null, "timestamp": "5"}})
}

fn ack(seq: u64, a: Json, q: Option<Json>) -> Json {
    let mut v = json!({"ica_acknowledgement": a, "original_packet": packet(seq), "relayer": "r"});
    if let Some(q) = q {
        v["query_result"] = q;
    }
    json!({"on_acknowledgement_packet_callback": v})
}

fn callbacks() -> Vec<Json> {
    vec![
        json!({"on_channel_open_ack_callback": {"channel": {"endpoint": {"port_id": "wasm.x", "channel_id": "channel-0"}, "counterparty_endpoint": {"port_id": "icahost", "channel_id": "channel-9"}, "order": "ORDER_ORDERED", "version": "v", "connection_id": "connection-0"}, "ica_address": "cosmos1ica", "tx_encoding": "proto3"}}),
        ack(1, json!({"result": "AQ=="}), None),
        ack(2, json!({"result": ""}), Some(json!({"success": {"height": 7, "responses": []}}))),
        ack(2, json!({"result": "AQ=="}), Some(json!({"error": "bad response"}))),
        ack(3, json!({"error": "e"}), None),
        ack(4, json!({"error": ""}), Some(json!({"error": "e"}))),
        json!({"on_timeout_packet_callback": {"original_packet": packet(5), "relayer": "r"}}),
        json!({"on_timeout_packet_callback": {"original_packet": packet(1), "relayer": "s"}}),
    ]
}

fn strip(v: &Json) -> Json {
    match v {
        Json::Object(o) => Json::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Json::Array(a) => a.iter().map(strip).collect::<Vec<_>>().into(),
        v => v.clone(),
    }
}

fn env() -> Env {
    Env { block: BlockInfo { height: 5, time: Timestamp::from_nanos(9), chain_id: "c-1".into() }, transaction: None, contract: ContractInfo { address: Addr::unchecked("counter") } }
}

impl Model for M {
    type State = S;
    type Act = A;
    fn init(&self) -> S {
        S { inst: false, store: Store::default(), lists: Default::default() }
    }
    fn acts(&self, s: &S) -> Vec<A> {
        if !s.inst {
            return vec![A::Inst];
        }
        callbacks().into_iter().enumerate().map(|(i, body)| A::Callback { from: if i % 2 == 0 { "controller".into() } else { "other".into() }, body }).collect()
    }
    fn step(&self, s: &S, a: &A) -> Result<S, String> {
        let api = MockApi::default();
        let q = MockQuerier::<Empty>::default();
        let mut n = s.clone();
        let mut st = s.store.clone();
        let info = |f: &str| MessageInfo { sender: Addr::unchecked(f), funds: vec![] };
        let r = quiet(|| {
            let d = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
            match a {
                A::Inst => contract::instantiate(d, env(), info("creator"), from_json(b"{}").map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
                A::Callback { from, body } => contract::execute(d, env(), info(from), from_json(json!({"receive_ica_callback": body}).to_string().as_bytes()).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            }
        })
        .and_then(|x| x)
        .map_err(|e| format!("refused: {e}"))?;
        if !r.messages.is_empty() {
            return Err("messages are emitted".into());
        }
        n.store = st;
        n.inst = true;
        if let A::Callback { body, .. } = a {
            if let Some(x) = body.get("on_acknowledgement_packet_callback") {
                n.lists[usize::from(x["ica_acknowledgement"].get("error").is_some())].push(body.clone());
            } else if body.get("on_timeout_packet_callback").is_some() {
                n.lists[2].push(body.clone());
            }
        }
        let d = Deps { storage: &n.store, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
        let b = contract::query(d, env(), from_json(br#"{"get_callback_counter":{}}"#).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let got: Json = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
        let want = json!({"success": n.lists[0], "error": n.lists[1], "timeout": n.lists[2]});
        if strip(&got) != strip(&want) {
            return Err(format!("recorded is {got}, delivered was {want}"));
        }
        Ok(n)
    }
}


/// `n` callbacks of one kind, then any callback.
struct Runs {
    n: usize,
}
impl Model for Runs {
    type State = S;
    type Act = A;
    fn init(&self) -> S {
        M.init()
    }
    fn acts(&self, s: &S) -> Vec<A> {
        let all = M.acts(s);
        let done: usize = s.lists.iter().map(Vec::len).sum();
        if s.inst && done > 0 && done < self.n {
            let k = s.lists.iter().position(|l| !l.is_empty()).unwrap();
            return all.into_iter().filter(|a| matches!(a, A::Callback { body, .. } if *body == s.lists[k][0])).collect();
        }
        if s.inst && done == 0 {
            return [1, 4, 6].into_iter().map(|i| all[i].clone()).collect();
        }
        all
    }
    fn step(&self, s: &S, a: &A) -> Result<S, String> {
        M.step(s, a)
    }
}

/// Every callback with varied contents.
struct Wide;
impl Model for Wide {
    type State = S;
    type Act = A;
    fn init(&self) -> S {
        M.init()
    }
    fn acts(&self, s: &S) -> Vec<A> {
        if !s.inst {
            return vec![A::Inst];
        }
        let mut texts: Vec<String> = ["", " ", "\t", "A", "é", "🚀", "\0", "{}", "null", "\"", "\\", "0", "a/b", "ok", "error", "success", "timeout"].iter().map(|s| s.to_string()).collect();
        texts.extend((1..=64).map(|n| "y".repeat(n)));
        let mut v = vec![];
        let mut put = |from: &str, body: Json| v.push(A::Callback { from: from.into(), body });
        let bin = |t: &str| serde_json::to_value(cosmwasm_std::Binary::from(t.as_bytes().to_vec())).unwrap();
        for t in &texts {
            put("c", ack(1, json!({"result": bin(t)}), None));
            put("c", ack(1, json!({"error": t}), None));
            put("c", ack(1, json!({"result": "AQ=="}), Some(json!({"error": t}))));
            put(t, ack(1, json!({"result": "AQ=="}), None));
            for body in [ack(1, json!({"result": "AQ=="}), None), ack(1, json!({"error": "e"}), None), json!({"on_timeout_packet_callback": {"original_packet": packet(5), "relayer": "r"}})] {
                for path in ["relayer", "original_packet/data", "original_packet/src/port_id", "original_packet/src/channel_id", "original_packet/dest/port_id", "original_packet/dest/channel_id"] {
                    let mut b = body.clone();
                    let inner = b.as_object_mut().unwrap().values_mut().next().unwrap();
                    let x = inner.pointer_mut(&format!("/{path}")).unwrap();
                    *x = if path.ends_with("data") { bin(t) } else { json!(t) };
                    put("c", b);
                }
            }
        }
        for n in [0, 1, 255, 256, 1 << 16, 1 << 32, u64::MAX] {
            for body in [ack(n, json!({"result": "AQ=="}), None), ack(n, json!({"error": "e"}), None), json!({"on_timeout_packet_callback": {"original_packet": packet(n), "relayer": "r"}})] {
                put("c", body.clone());
                for timeout in [json!({"block": {"revision": n, "height": 1}, "timestamp": null}), json!({"block": {"revision": 1, "height": n}, "timestamp": "7"}), json!({"block": null, "timestamp": n.to_string()})] {
                    let mut b = body.clone();
                    b.as_object_mut().unwrap().values_mut().next().unwrap()["original_packet"]["timeout"] = timeout;
                    put("c", b);
                }
            }
        }
        for n in 0..40 {
            let r: Vec<Json> = (0..n).map(|i| json!({"stargate": {"path": "/p", "data": bin(&i.to_string())}})).collect();
            put("c", ack(1, json!({"result": "AQ=="}), Some(json!({"success": {"height": n, "responses": r}}))));
        }
        v
    }
    fn step(&self, s: &S, a: &A) -> Result<S, String> {
        M.step(s, a)
    }
}

pub fn explore(deep: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = if deep { 300 } else { 130 };
    std::thread::scope(|t| {
        t.spawn(|| run("callback counter", &M, if deep { 7 } else { 5 }));
        t.spawn(|| run("callback counter, long runs", &Runs { n }, n + 2));
        t.spawn(|| run("callback counter, wide contents", &Wide, 2));
    });
}
