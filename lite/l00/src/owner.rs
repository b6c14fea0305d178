//! The example owner contract: all histories over its own alphabet.

use std::hash::{Hash, Hasher};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{from_json, Addr, Api, BlockInfo, CanonicalAddr, ContractInfo, ContractResult, Deps, DepsMut, Empty, Env, MessageInfo, Querier, QuerierResult, QuerierWrapper, Response, SystemResult, Timestamp};
use serde_json::{json, Value as Json};
use sha2::{Digest, Sha256};

use crate::bfs::{quiet, run, Model, Store};
use cw_ica_owner::contract;

fn addr(n: &str) -> String {
    MockApi::default().addr_make(n).to_string()
}
fn me() -> String {
    addr("ownercontract")
}

const CHECKSUM: &str = "13a1fc994cc6d1c81b746ee0c0ff6f90043875e0bf1d9be6b7d779fc978dc2a5";

struct Chain;
impl Querier for Chain {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let v: Json = serde_json::from_slice(bin).unwrap_or(Json::Null);
        SystemResult::Ok(match v["wasm"]["code_info"]["code_id"].as_u64() {
            Some(7) => ContractResult::Ok(json!({"code_id": 7, "creator": addr("uploader"), "checksum": CHECKSUM}).to_string().into_bytes().into()),
            _ => ContractResult::Err("no such code".into()),
        })
    }
}

fn predicted(salt: &[u8]) -> String {
    let sum: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&CHECKSUM[2 * i..2 * i + 2], 16).unwrap()).collect();
    let api = MockApi::default();
    let creator = api.addr_canonicalize(&me()).unwrap();
    let mut key = b"wasm\0".to_vec();
    for part in [sum.as_slice(), creator.as_slice(), salt, &[]] {
        key.extend_from_slice(&(part.len() as u64).to_be_bytes());
        key.extend_from_slice(part);
    }
    let a = Sha256::digest([Sha256::digest(b"module").as_slice(), &key].concat()).to_vec();
    api.addr_humanize(&CanonicalAddr::from(a)).unwrap().to_string()
}

#[derive(Clone, PartialEq, Eq)]
struct S {
    inst: bool,
    store: Store,
    time: u64,
    admin: String,
    icas: Vec<(String, Json)>,
}
impl Hash for S {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.store.hash(h);
        self.time.hash(h);
        self.inst.hash(h);
    }
}

#[derive(Clone, Debug)]
enum A {
    Inst { from: String, admin: Option<String> },
    Create { from: String, salt: Option<String>, opts: Json },
    Send { from: String, id: u64, to: String },
    Callback { from: String, body: Json },
    Tick,
}

/// `prefill` controllers are created before anything else is tried.
struct M {
    prefill: usize,
}

fn opts() -> Vec<Json> {
    vec![
        json!({"connection_id": "connection-0", "counterparty_connection_id": "connection-1", "counterparty_port_id": null, "channel_ordering": null}),
        json!({"connection_id": "connection-2", "counterparty_connection_id": "connection-3", "counterparty_port_id": "icahost", "channel_ordering": "ORDER_UNORDERED"}),
    ]
}

fn chan(id: &str, version: &str) -> Json {
    json!({"endpoint": {"port_id": "wasm.x", "channel_id": id}, "counterparty_endpoint": {"port_id": "icahost", "channel_id": "channel-9"}, "order": "ORDER_ORDERED", "version": version, "connection_id": "connection-0"})
}

fn callbacks() -> Vec<Json> {
    let p = json!({"data": "AQ==", "src": {"port_id": "a", "channel_id": "channel-0"}, "dest": {"port_id": "b", "channel_id": "channel-1"}, "sequence": 3, "timeout": {"block": null, "timestamp": "5"}});
    vec![
        json!({"on_channel_open_ack_callback": {"channel": chan("channel-0", "v"), "ica_address": "cosmos1ica", "tx_encoding": "proto3"}}),
        json!({"on_channel_open_ack_callback": {"channel": chan("channel-7", "w\""), "ica_address": "", "tx_encoding": "proto3json"}}),
        json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": {"result": "AQ=="}, "original_packet": p, "relayer": "r", "query_result": {"error": "x"}}}),
        json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": {"error": "e"}, "original_packet": p, "relayer": "r"}}),
        json!({"on_timeout_packet_callback": {"original_packet": p, "relayer": "r"}}),
    ]
}

fn strip(v: &Json) -> Json {
    match v {
        Json::Object(o) => Json::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Json::Array(a) => a.iter().map(strip).collect::<Vec<_>>().into(),
        v => v.clone(),
    }
}

fn env(s: &S) -> Env {
    Env { block: BlockInfo { height: 5, time: Timestamp::from_nanos(s.time), chain_id: "c-1".into() }, transaction: None, contract: ContractInfo { address: Addr::unchecked(me()) } }
}

fn call(s: &S, from: &str, inst: bool, msg: &Json) -> Result<(Store, Response), String> {
    let api = MockApi::default();
    let mut st = s.store.clone();
    let info = MessageInfo { sender: Addr::unchecked(from), funds: vec![] };
    let r = quiet(|| {
        let d = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::<Empty>::new(&Chain) };
        let b = msg.to_string();
        if inst {
            contract::instantiate(d, env(s), info, from_json(b.as_bytes()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
        } else {
            contract::execute(d, env(s), info, from_json(b.as_bytes()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
        }
    })??;
    Ok((st, r))
}

fn query(s: &S, msg: &Json) -> Result<Json, String> {
    let api = MockApi::default();
    let d = Deps { storage: &s.store, api: &api, querier: QuerierWrapper::<Empty>::new(&Chain) };
    let b = contract::query(d, env(s), from_json(msg.to_string().as_bytes()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

fn payload(v: &mut Json) -> Result<Json, String> {
    let b: cosmwasm_std::Binary = serde_json::from_value(v.take()).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

/// what is reported in a state
fn judge_state(s: &S) -> Result<(), String> {
    let q = query(s, &json!({"get_contract_state": {}}))?;
    if q != json!({"admin": s.admin, "ica_controller_code_id": 7}) {
        return Err(format!("the contract state is {q}"));
    }
    match query(s, &json!({"get_ica_count": {}})) {
        Ok(n) if n == json!(s.icas.len()) => {}
        Err(_) if s.icas.is_empty() => {}
        x => return Err(format!("the number of controllers is {x:?}, created were {}", s.icas.len())),
    }
    for (i, (a, st)) in s.icas.iter().enumerate() {
        let q = query(s, &json!({"get_ica_contract_state": {"ica_id": i}}))?;
        let want = json!({"contract_addr": a, "ica_state": st});
        if strip(&q) != strip(&want) {
            return Err(format!("controller {i} is {q}, expected {want}"));
        }
    }
    if let Ok(q) = query(s, &json!({"get_ica_contract_state": {"ica_id": s.icas.len()}})) {
        return Err(format!("there is a controller {} that was never created: {q}", s.icas.len()));
    }
    Ok(())
}

impl Model for M {
    type State = S;
    type Act = A;
    fn init(&self) -> S {
        S { inst: false, store: Store::default(), time: 1_700_000_000_123_456_789, admin: String::new(), icas: vec![] }
    }
    fn acts(&self, s: &S) -> Vec<A> {
        if self.prefill > 0 {
            if !s.inst {
                return vec![A::Inst { from: addr("creator"), admin: Some(addr("admin")) }];
            }
            if s.icas.len() < self.prefill {
                return vec![A::Create { from: addr("admin"), salt: Some(format!("salt{}", s.icas.len())), opts: opts().remove(s.icas.len() % 2) }];
            }
        }
        if !s.inst {
            return vec![A::Inst { from: addr("creator"), admin: None }, A::Inst { from: addr("creator"), admin: Some(addr("admin")) }, A::Inst { from: addr("creator"), admin: Some("x".into()) }];
        }
        let mut v = vec![A::Tick];
        // look-alikes of the admin and of the controllers
        let near = |a: &str| vec![a[..a.len() - 1].to_string(), format!("{a}x"), a.to_uppercase(), a[..4].to_string(), String::new()];
        let mut people = vec![addr("creator"), addr("admin"), addr("stranger"), me()];
        people.extend(near(&s.admin));
        people.extend(s.icas.iter().map(|i| i.0.clone()));
        for from in &people {
            for salt in [None, Some("s"), Some("t"), Some("")] {
                for o in opts() {
                    if s.icas.len() < 3 {
                        v.push(A::Create { from: from.clone(), salt: salt.map(Into::into), opts: o });
                    }
                }
            }
            if self.prefill > 0 && s.icas.len() < self.prefill + 2 {
                v.push(A::Create { from: from.clone(), salt: Some("more".into()), opts: opts().remove(0) });
            }
            if self.prefill == 0 || *from == s.admin {
                for id in (0..=s.icas.len() as u64).chain([u64::MAX, 1 << 32, s.icas.len() as u64 + 256]) {
                    for to in ["cosmos1to", ""] {
                        v.push(A::Send { from: from.clone(), id, to: to.into() });
                    }
                }
            }
            for c in callbacks() {
                v.push(A::Callback { from: from.clone(), body: c });
            }
        }
        if let Some(i) = s.icas.last() {
            for from in near(&i.0) {
                for c in callbacks() {
                    v.push(A::Callback { from: from.clone(), body: c });
                }
            }
        }
        v
    }
    fn step(&self, s: &S, a: &A) -> Result<S, String> {
        let mut n = s.clone();
        let err = |e: String| -> Result<S, String> { Err(e) };
        match a {
            A::Tick => {
                if n.time < 1_700_000_003_000_000_000 {
                    n.time += 1_000_000_000;
                }
                return Ok(n);
            }
            A::Inst { from, admin } => match call(s, from, true, &json!({"admin": admin, "ica_controller_code_id": 7})) {
                Ok((st, r)) => {
                    if admin.as_deref() == Some("x") {
                        return err("an invalid admin was accepted".into());
                    }
                    if !r.messages.is_empty() {
                        return err("instantiation emits messages".into());
                    }
                    n.inst = true;
                    n.store = st;
                    n.admin = admin.clone().unwrap_or_else(|| from.clone());
                }
                Err(e) => {
                    if admin.as_deref() != Some("x") {
                        return err(format!("instantiation refused: {e}"));
                    }
                    return Ok(n);
                }
            },
            A::Create { from, salt, opts } => {
                let r = call(s, from, false, &json!({"create_ica_contract": {"salt": salt, "channel_open_init_options": opts}}));
                if *from != s.admin {
                    return if r.is_ok() { err(format!("{from} created a controller, the admin is {}", s.admin)) } else { Ok(n) };
                }
                if salt.as_deref() == Some("") {
                    return if r.is_ok() { err("an empty salt was accepted".into()) } else { Ok(n) };
                }
                let (st, r) = r.map_err(|e| format!("the admin's create request was refused: {e}"))?;
                if r.messages.len() != 1 {
                    return err(format!("{} messages", r.messages.len()));
                }
                let mut m = serde_json::to_value(&r.messages[0].msg).unwrap();
                let i = &mut m["wasm"]["instantiate2"];
                let p = payload(&mut i["msg"])?;
                let want = json!({"owner": me(), "send_callbacks_to": me(), "channel_open_init_options": opts});
                if strip(&p) != strip(&want) {
                    return err(format!("the controller is instantiated with {p}, expected {want}"));
                }
                if i["code_id"] != json!(7) || i["funds"] != json!([]) {
                    return err(format!("the controller is instantiated by {i}"));
                }
                let sb: cosmwasm_std::Binary = serde_json::from_value(i["salt"].clone()).map_err(|e| e.to_string())?;
                if let Some(x) = salt {
                    if sb.as_slice() != x.as_bytes() {
                        return err(format!("salt {sb}, given was {x}"));
                    }
                }
                let a = predicted(&sb);
                if s.icas.iter().any(|i| i.0 == a) {
                    // the chain refuses to instantiate twice at one address
                    return Ok(n);
                }
                n.store = st;
                n.icas.push((a, Json::Null));
            }
            A::Send { from, id, to } => {
                let r = call(s, from, false, &json!({"send_predefined_action": {"ica_id": id, "to_address": to}}));
                if *from != s.admin || *id >= s.icas.len() as u64 {
                    return if r.is_ok() { err(format!("{from} sent through controller {id}, the admin is {}, {} controllers exist", s.admin, s.icas.len())) } else { Ok(n) };
                }
                let (st, r) = r.map_err(|e| format!("the admin's send was refused: {e}"))?;
                if r.messages.len() != 1 {
                    return err(format!("{} messages", r.messages.len()));
                }
                let mut m = serde_json::to_value(&r.messages[0].msg).unwrap();
                let p = payload(&mut m["wasm"]["execute"]["msg"])?;
                let want = json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": to, "amount": [{"denom": "stake", "amount": "100"}]}}}]}});
                if strip(&p) != want || m["wasm"]["execute"]["contract_addr"] != json!(s.icas[*id as usize].0) || m["wasm"]["execute"]["funds"] != json!([]) {
                    return err(format!("the action is {m} with {p}"));
                }
                if st != s.store {
                    return err("the action changed the stored data".into());
                }
            }
            A::Callback { from, body } => {
                let r = call(s, from, false, &json!({"receive_ica_callback": body}));
                let id = s.icas.iter().position(|i| i.0 == *from);
                match (r, id) {
                    (Err(_), None) => return Ok(n),
                    (Err(e), Some(i)) => return err(format!("a callback of controller {i} was refused: {e}")),
                    (Ok((st, r)), id) => {
                        if !r.messages.is_empty() {
                            return err("a callback emits messages".into());
                        }
                        n.store = st;
                        if let (Some(i), Some(c)) = (id, body.get("on_channel_open_ack_callback")) {
                            n.icas[i].1 = json!({"ica_id": i, "ica_addr": c["ica_address"], "tx_encoding": c["tx_encoding"], "channel_state": {"channel": c["channel"], "channel_status": "STATE_OPEN"}});
                        } else if n.store != s.store {
                            return err(format!("a callback from {from} changed the stored data"));
                        }
                    }
                }
            }
        }
        if n.store != s.store || n.icas != s.icas {
            judge_state(&n)?;
        }
        Ok(n)
    }
}

/// One request each with many salts, addressees and options.
struct Wide;
fn text() -> Vec<String> {
    let mut v: Vec<String> = [" ", "a ", " a", "\t", "A", "é", "🚀", "\0", "{}", "\"", "\\", "0", "1700000000", "cosmos1to", "COSMOS1TO", "a/b", "x,y"].iter().map(|s| s.to_string()).collect();
    v.extend((1..=64).map(|n| "y".repeat(n)));
    v
}
impl Model for Wide {
    type State = S;
    type Act = A;
    fn init(&self) -> S {
        M { prefill: 0 }.init()
    }
    fn acts(&self, s: &S) -> Vec<A> {
        let m = M { prefill: 2 };
        if !s.inst || s.icas.len() < 2 {
            return m.acts(s);
        }
        let mut v = vec![];
        for t in text() {
            v.push(A::Create { from: s.admin.clone(), salt: Some(t.clone()), opts: opts().remove(0) });
            for id in 0..2 {
                v.push(A::Send { from: s.admin.clone(), id, to: t.clone() });
            }
            for (i, k) in ["connection_id", "counterparty_connection_id", "counterparty_port_id"].iter().enumerate() {
                let mut o = opts().remove(i % 2);
                o[k] = json!(t);
                v.push(A::Create { from: s.admin.clone(), salt: Some("w".into()), opts: o });
            }
            for k in ["endpoint", "counterparty_endpoint", "version", "connection_id", "ica"] {
                let mut c = chan("channel-3", "v");
                let mut ica = "cosmos1ica".to_string();
                match k {
                    "ica" => ica = t.clone(),
                    "endpoint" | "counterparty_endpoint" => c[k]["channel_id"] = json!(t),
                    _ => c[k] = json!(t),
                }
                v.push(A::Callback { from: s.icas[0].0.clone(), body: json!({"on_channel_open_ack_callback": {"channel": c, "ica_address": ica, "tx_encoding": "proto3"}}) });
            }
        }
        v
    }
    fn step(&self, s: &S, a: &A) -> Result<S, String> {
        M { prefill: 0 }.step(s, a)
    }
}

pub fn explore(deep: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|t| {
        t.spawn(|| run("owner contract", &M { prefill: 0 }, if deep { 8 } else { 6 }));
        t.spawn(|| run("owner contract, wide arguments", &Wide, if deep { 5 } else { 4 }));
        for n in [9usize, 10, 11, 15, 16, 17, 99, 100, 255, 256, 257] {
            if deep || n < 200 {
                let more = if n > 200 { 1 } else if n > 90 { 2 } else if deep { 4 } else { 3 };
                t.spawn(move || run(&format!("owner contract with {n} controllers"), &M { prefill: n }, n + more));
            }
        }
    });
}
