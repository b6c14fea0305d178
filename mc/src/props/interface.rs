//! C21 (JSON interface in every library build), C23 (example contracts) and C24 (library helpers in
//! every build): the other side runs in
//! its own process, built with its own features (see /verif/lite).

use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

use cosmwasm_std::from_json;
use cw_ica_controller::types::msg::InstantiateMsg;

use super::callbacks::{acks, expected, one_at_a_time, packets, relayers, with_packet};
use super::helpers::{insts, requests, strip};
use super::channel::proposes_for;
use super::packets::{judge_tx, memos, opened, packet_tx, reopened, supported, timeouts};
use super::*;
use crate::alpha;
use crate::engine::{enumerate_batches, explore, none, Cfg, Report, Violation, REPLAY};

const BUILDS: [(&str, bool); 4] = [("l00", false), ("l10", true), ("l01", false), ("l11", true)];

fn bin(name: &str) -> String {
    let dir = std::env::var("MC_LITE").unwrap_or_else(|_| "/verif/lite/target/debug".into());
    format!("{dir}/{name}")
}

struct Peer {
    p: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Peer {
    fn new(name: &str) -> Peer {
        let mut p = Command::new(bin(name)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("{}: {e}", bin(name)));
        let i = p.stdin.take().unwrap();
        let o = BufReader::new(p.stdout.take().unwrap());
        Peer { p, i, o }
    }
    fn ask(&mut self, q: &Json) -> Result<Json, String> {
        writeln!(self.i, "{q}").and_then(|()| self.i.flush()).map_err(|e| format!("peer: {e}"))?;
        let mut l = String::new();
        self.o.read_line(&mut l).map_err(|e| format!("peer: {e}"))?;
        let mut v: Json = serde_json::from_str(&l).map_err(|e| format!("peer: {e}"))?;
        match v.get_mut("ok") {
            Some(x) => Ok(x.take()),
            None => Err(v["err"].as_str().unwrap_or("?").to_string()),
        }
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.p.kill();
        let _ = self.p.wait();
    }
}

/// Runs an exploration in another process and takes over its report.
fn remote(rep: &mut Report, name: &str, args: &[&str]) {
    if rep.violation.is_some() {
        return;
    }
    if let Some((c, ..)) = REPLAY.get() {
        if !c.starts_with("remote ") {
            return;
        }
    }
    let out = Command::new(bin(name)).args(args).stderr(Stdio::inherit()).output().unwrap_or_else(|e| panic!("{}: {e}", bin(name)));
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    assert!(out.status.success() && !text.is_empty(), "no report from {name}");
    for line in text.lines() {
        let v: Json = serde_json::from_str(line).unwrap_or_else(|_| panic!("no report from {name}: {line}"));
        report(rep, v);
    }
}

fn report(rep: &mut Report, v: Json) {
    rep.states += v["states"].as_u64().unwrap_or(0);
    rep.transitions += v["transitions"].as_u64().unwrap_or(0);
    rep.validated += v["validated"].as_u64().unwrap_or(0);
    rep.samples.push(json!({"config": v["config"], "history": v["sample"]}));
    if !v["violation"].is_null() && rep.violation.is_none() {
        rep.violation = Some(Violation {
            config: format!("remote {}", v["config"].as_str().unwrap_or("")),
            message: v["violation"]["message"].as_str().unwrap_or("").into(),
            trace: json!({"kind": "history", "steps": v["violation"]["history"]}),
        });
    }
    let mut e = v.clone();
    e.as_object_mut().map(|o| {
        o.remove("sample");
        o.remove("violation")
    });
    rep.explorations.push(e);
}

/// Did a library build fail to compile?
fn unusable(rep: &mut Report) -> bool {
    let Ok(e) = std::env::var("MC_LITE_FAIL") else { return false };
    if REPLAY.get().is_none() || REPLAY.get().unwrap().0 == "build" {
        rep.violation = Some(Violation { config: "build".into(), message: format!("the library cannot be used in this build: {e}"), trace: json!({"kind": "build", "error": e, "actions": []}) });
    }
    true
}

fn drop_result(v: &Json) -> Json {
    let mut v = v.clone();
    if let Some(o) = v.get_mut("on_acknowledgement_packet_callback").and_then(Json::as_object_mut) {
        o.remove("query_result");
    }
    v
}

pub fn c21(rep: &mut Report, deep: bool) {
    rep.bounds.push("every distinct callback the real controller emits in all histories of transactions up to the depth of each exploration and for the products of packets, acknowledgements, relayers and completions of C16, every request of C20, every query answer in 6 states; each exchanged with 4 library builds (with/without query, with/without staking); the receiver macro of /repo/derive on 5 enums".into());
    if unusable(rep) {
        return;
    }
    // every callback that can be seen
    let seen: Mutex<BTreeMap<Vec<u8>, Json>> = Mutex::new(BTreeMap::new());
    let take = |w: &World, a: &Act, r: &Rec| {
        if !r.head_ok() {
            return;
        }
        for m in r.all_msgs() {
            if let CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) = &m.msg {
                let got: Json = serde_json::from_slice(msg).unwrap_or(Json::Null);
                let Some(mut want) = expected(w, a) else { continue };
                let q = &got["receive_ica_callback"]["on_acknowledgement_packet_callback"]["query_result"];
                if !q.is_null() {
                    want["on_acknowledgement_packet_callback"]["query_result"] = q.clone();
                }
                seen.lock().unwrap().insert(msg.to_vec(), want);
            }
        }
    };
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| {
        take(w, a, r);
        Ok(())
    };
    let q = cases::query_id;
    let sup: Vec<u32> = (0..cases::queries().len() as u32).filter(|i| cases::queries()[*i as usize].core && cases::queries()[*i as usize].expect.is_some()).collect();
    let mut sends = vec![send1(), send(vec![cases::msg_id("bank_send")], vec![q("balance"), q("supply")]), send(vec![], sup.clone())];
    sends.extend(sup.iter().map(|i| send(vec![], vec![*i])));
    let k = Knobs {
        insts: vec![inst(opts_u(), Some(addr("cb1"))), inst(opts_a(), Some(addr("cb2")))],
        creates: vec![None, Some(opts_b())],
        close_confirm: true,
        sends,
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        addrs: 2,
        max_chans: 2,
        max_inflight: 1,
        max_sends: if deep { 2 } else { 1 },
        ..Knobs::default()
    };
    // in replay mode the corpus is gathered first, then the case is re-executed
    if REPLAY.get().is_none() {
        explore(rep, &Cfg { name: "callbacks".into(), root: World::new(Params::default()), depth: if deep { 12 } else { 10 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    } else {
        let mut frontier = vec![World::new(Params::default())];
        let mut known = std::collections::HashSet::new();
        for _ in 0..if deep { 12 } else { 10 } {
            let mut next = vec![];
            for w in &frontier {
                for a in gen(&k, w) {
                    let (n, r) = step(w, &a);
                    take(w, &a, &r);
                    if known.insert(n.key()) {
                        next.push(n);
                    }
                }
            }
            frontier = next;
        }
    }
    let worlds: Vec<World> = [opened(opts_u(), "cosmos1ica", Some(addr("cb1"))), opened(opts_a(), "cosmos1ica", Some(addr("cb2")))].into_iter().flatten().collect();
    for w in &worlds {
        for p in packets() {
            for (i, relayer) in relayers().into_iter().enumerate() {
                let seq = [1u64, 256, (1 << 53) + 1, u64::MAX][i % 4];
                let w = with_packet(w, seq, p.clone());
                for ack in acks() {
                    let a = Act::Ack { ch: 0, seq, ack, relayer: relayer.clone(), cb_ok: true };
                    take(&w, &a, &step(&w, &a).1);
                }
                let a = Act::Timeout { ch: 0, seq, relayer, cb_ok: true };
                take(&w, &a, &step(&w, &a).1);
            }
        }
    }
    for w in worlds.first().iter() {
        for (p, seq, ack, relayer) in one_at_a_time() {
            let w = with_packet(w, seq, p);
            let a = match ack {
                Some(ack) => Act::Ack { ch: 0, seq, ack, relayer, cb_ok: true },
                None => Act::Timeout { ch: 0, seq, relayer, cb_ok: true },
            };
            take(&w, &a, &step(&w, &a).1);
        }
        // every response of C15
        for (i, c) in cases::resps().iter().enumerate() {
            let (w, r) = step(w, &exec(&w.ghost.owner, send(vec![], vec![cases::query_id(c.kind)])));
            if let (true, [(ch, seq)]) = (r.accepted, r.sent.as_slice()) {
                let ack = ack_result(&result_bytes(0, Some((i as u64, &[c.bytes.clone()]))));
                let a = Act::Ack { ch: *ch, seq: *seq, ack, relayer: addr("relayer"), cb_ok: true };
                take(&w, &a, &step(&w, &a).1);
            }
        }
    }
    // completions with any account, connection and counterparty id
    let strs: Vec<String> = alpha::strings();
    for t in &strs {
        for (ica, cp) in [("cosmos1ica", t.as_str()), (t.as_str(), "channel-7")] {
            let w = step(&World::new(Params::default()), &inst(opts_a(), Some(addr("cb1")))).0;
            if let Some(c) = w.chans.first() {
                let a = Act::OpenAck { ch: 0, version: host_version(c, ica), cpty_chan: cp.into(), cb_ok: true };
                take(&w, &a, &step(&w, &a).1);
            }
        }
    }
    let seen: Vec<(Vec<u8>, Json)> = seen.into_inner().unwrap().into_iter().collect();
    let chunk = 500;
    let chunks = seen.len().div_ceil(chunk).max(1);
    enumerate_batches(rep, "callbacks in every build", BUILDS.len() * chunks, |i| {
        let (build, has_query) = BUILDS[i % BUILDS.len()];
        let c = i / BUILDS.len();
        let mut peer = Peer::new(build);
        let part = &seen[(c * chunk).min(seen.len())..((c + 1) * chunk).min(seen.len())];
        for (text, want) in part {
            let text = String::from_utf8_lossy(text).into_owned();
            let case = || json!({"build": build, "callback": text});
            let r = peer.ask(&json!({"op": "callback", "text": text})).map_err(|e| (format!("build {build} does not understand a callback: {e}"), case()))?;
            let want = if has_query { want.clone() } else { drop_result(want) };
            if r["seen"] != want {
                return Err((format!("build {build} understands {}, sent was {want}", r["seen"]), case()));
            }
            let mut orig: Json = serde_json::from_str(&text).unwrap_or(Json::Null);
            if !has_query {
                orig["receive_ica_callback"] = drop_result(&orig["receive_ica_callback"]);
            }
            let again: Json = r["again"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Json::Null);
            if strip(&again) != strip(&orig) {
                return Err((format!("build {build} passes on {again}, received was {orig}"), case()));
            }
        }
        for own in [json!({"own": {"a": 7}}), json!({"other": "x"})] {
            let r = peer.ask(&json!({"op": "own", "text": own.to_string()})).map_err(|e| (format!("build {build}: {e}"), own.clone()))?;
            if r.as_str().and_then(|s| serde_json::from_str::<Json>(s).ok()) != Some(own.clone()) {
                return Err((format!("build {build} understands its own message {own} as {r}"), own));
            }
        }
        Ok(part.len() as u64)
    });
    // requests
    let worlds: Vec<World> = [
        Some(step(&World::new(Params::default()), &inst(opts_a(), None)).0),
        opened(opts_a(), "cosmos1ica", None),
        opened(opts_u(), "cosmos1ica", Some(addr("cb1"))),
        reopened(opts_b(), "juno1newaccount"),
        opened(opts_a(), "cosmos1ica", None).map(|w| step(&w, &Act::CloseConfirm { ch: 0 }).0),
        opened(opts_a(), "cosmos1ica", None).map(|w| step(&w, &exec(&w.ghost.owner, Req::Transfer { to: addr("heir"), exp: Some(Exp::Height(2000)) })).0),
    ]
    .into_iter()
    .flatten()
    .collect();
    let reqs = requests();
    enumerate_batches(rep, "requests of every build", BUILDS.len(), |i| {
        let (build, _) = BUILDS[i];
        let mut peer = Peer::new(build);
        let mut calls = 0;
        for req in &reqs {
            let case = || json!({"build": build, "request": req.json()});
            let r = peer.ask(&json!({"op": "request", "request": req.json()})).map_err(|e| (format!("build {build} cannot make the request: {e}"), case()))?;
            let Some(text) = r.as_str() else { continue };
            for w in &worlds {
                for from in [&w.ghost.owner, &addr("heir")] {
                    // with every field spelled out
                    let mut full = req.json();
                    if let Some(o) = full.get_mut("send_cosmos_msgs").and_then(Json::as_object_mut) {
                        o.entry("queries").or_insert(json!([]));
                    }
                    let (a, ra) = step(w, &exec(from, Req::Raw(full.to_string())));
                    let (b, rb) = step(w, &exec(from, Req::Raw(text.into())));
                    calls += 2;
                    let same = ra.accepted == rb.accepted && ra.head_ok() == rb.head_ok() && a.store == b.store && format!("{:?}", ra.all_msgs()) == format!("{:?}", rb.all_msgs());
                    if !same {
                        return Err((format!("the controller understands {text} of build {build} differently: {} / {}", ra.err, rb.err), case()));
                    }
                }
            }
        }
        for im in insts() {
            let case = || json!({"build": build, "instantiate": im});
            let r = peer.ask(&json!({"op": "request", "request": {"instantiate": im}})).map_err(|e| (e, case()))?;
            let text = r.as_str().unwrap_or("").to_string();
            let got = from_json::<InstantiateMsg>(text.as_bytes()).map_err(|e| (format!("the controller does not understand {text}: {e}"), case()))?;
            let want = from_json::<InstantiateMsg>(im.to_string().as_bytes()).map_err(|e| (format!("the controller does not understand {im}: {e}"), case()))?;
            if got != want || serde_json::from_str::<Json>(&text).map(|t| strip(&t)).ok() != Some(strip(&im)) {
                return Err((format!("build {build} instantiates with {text}"), case()));
            }
            calls += 1;
        }
        let r = peer.ask(&json!({"op": "request", "request": {"migrate": {}}})).map_err(|e| (e, json!("migrate")))?;
        if r != json!("{}") {
            return Err((format!("build {build} migrates with {r}"), json!("migrate")));
        }
        for w in &worlds {
            for kind in ["get_channel", "get_contract_state", "ownership"] {
                let case = || json!({"build": build, "query": kind});
                let r = peer.ask(&json!({"op": "request", "request": {"query": kind}})).map_err(|e| (e, case()))?;
                let text = r.as_str().unwrap_or("");
                let truth = w.query(&format!("{{\"{kind}\":{{}}}}"));
                let got = w.query(text);
                calls += 2;
                if truth.is_ok() != got.is_ok() || truth.as_ref().ok() != got.as_ref().ok() {
                    return Err((format!("the controller answers {got:?} to {text} of build {build}"), case()));
                }
                if let Ok(t) = truth {
                    let a = peer.ask(&json!({"op": "answer", "kind": kind, "text": t.to_string()})).map_err(|e| (format!("build {build} does not understand the answer {t}: {e}"), case()))?;
                    if strip(&a) != strip(&t) {
                        return Err((format!("build {build} understands the answer {t} as {a}"), case()));
                    }
                }
            }
        }
        Ok(calls)
    });
    remote(rep, "mac", &[]);
}

pub fn c23(rep: &mut Report, deep: bool) {
    rep.bounds.push("owner contract: all histories of transactions up to the depth of each exploration over create (4 salts x 2 options), send, callbacks (5 kinds) and time, by 4 people, look-alikes of the admin and of the controllers, and every created controller, up to 3 controllers; one request each with 81 texts in every string of a create, send and open callback; histories that continue after 9, 10, 11, 15, 16, 17, 99, 100 (thorough: 255-257) created controllers; callback counter: all histories of callbacks up to the depth of each exploration of 8 kinds, all runs of 1..130 (300) equal callbacks followed by any callback, and every callback with varied contents".into());
    let t = if deep { "thorough" } else { "quick" };
    remote(rep, "l00", &["owner", t]);
    remote(rep, "l11", &["counter", t]);
}

fn unb64(s: &str) -> Option<Vec<u8>> {
    cosmwasm_std::Binary::from_base64(s).ok().map(|b| b.to_vec())
}

/// Is this a message or query that a build without staking does not have?
fn staking_only(v: &Json) -> bool {
    ["staking", "distribution"].iter().any(|k| v.get(k).is_some())
}

/// One packet built by a library user.
#[derive(Clone)]
struct Build {
    msgs: Vec<u32>,
    queries: Vec<u32>,
    memo: Option<String>,
    timeout: Option<u64>,
    time: u64,
    ica: String,
    channel: String,
    encoding: &'static str,
}

fn judge_build(peer: &mut Peer, build: &str, staking: bool, query: bool, b: &Build) -> Result<(), String> {
    let ms: Vec<&Json> = b.msgs.iter().map(|m| &cases::msgs()[*m as usize].json).collect();
    let qs: Vec<&Json> = b.queries.iter().map(|q| &cases::queries()[*q as usize].json).collect();
    let r = peer.ask(&json!({"op": "packet", "messages": ms, "queries": qs, "memo": b.memo, "timeout": b.timeout, "time": b.time, "ica": b.ica, "channel": b.channel, "encoding": b.encoding}));
    let ts = 1_000_000_000u64.checked_mul(b.timeout.unwrap_or(600)).and_then(|x| x.checked_add(b.time));
    let foreign = (!staking && ms.iter().chain(&qs).any(|v| staking_only(v))) || (!query && !qs.is_empty());
    let possible = supported(&b.msgs, &b.queries) && b.encoding == "proto3" && ts.is_some();
    let r = match r {
        Err(e) => return chk(!possible || foreign, || format!("build {build} refuses to build a packet: {e}")),
        Ok(r) => r,
    };
    if r.get("unknown").is_some() {
        return chk(foreign || !possible, || format!("build {build} does not know {}", r["unknown"]));
    }
    chk(possible, || format!("build {build} builds an impossible packet"))?;
    chk(r["channel"] == json!(b.channel), || format!("the packet goes over {}", r["channel"]))?;
    chk(r["timestamp"].as_u64() == ts && r["block"] == json!(false), || format!("timeout {r}, expected {ts:?}"))?;
    let data: Json = r["data"].as_str().and_then(unb64).and_then(|d| serde_json::from_slice(&d).ok()).ok_or("packet data is not JSON")?;
    let o = data.as_object().ok_or("packet data is not an object")?;
    chk(o.keys().all(|k| ["type", "data", "memo"].contains(&k.as_str())), || format!("packet data is {data}"))?;
    chk(data["type"] == json!(1) || data["type"] == json!("TYPE_EXECUTE_TX"), || format!("packet type {}", data["type"]))?;
    let want = b.memo.as_ref().map(|m| json!(m));
    chk(o.get("memo") == want.as_ref(), || format!("memo {:?}, expected {want:?}", o.get("memo")))?;
    let tx = packet_tx(&data).ok_or("packet data")?;
    judge_tx(&tx, &b.msgs, &b.queries, &b.ica, true, true)
}

fn builds(deep: bool) -> Vec<Build> {
    let base = Build { msgs: vec![], queries: vec![], memo: None, timeout: None, time: 1_700_000_000_000_000_001, ica: "cosmos1ica".into(), channel: "channel-7".into(), encoding: "proto3" };
    let core: Vec<u32> = (0..cases::msgs().len() as u32).filter(|i| cases::msgs()[*i as usize].core).collect();
    let qcore: Vec<u32> = (0..cases::queries().len() as u32).filter(|i| cases::queries()[*i as usize].core).collect();
    let mut v = vec![];
    // every message, every query
    for m in 0..cases::msgs().len() as u32 {
        v.push(Build { msgs: vec![m], ..base.clone() });
    }
    for q in 0..cases::queries().len() as u32 {
        v.push(Build { queries: vec![q], ..base.clone() });
    }
    // all sequences of two (three) kinds of messages, of two kinds of queries, of both
    for a in &core {
        for b in &core {
            v.push(Build { msgs: vec![*a, *b], ..base.clone() });
            if deep {
                for c in &core {
                    v.push(Build { msgs: vec![*a, *b, *c], ..base.clone() });
                }
            }
        }
        for q in &qcore {
            v.push(Build { msgs: vec![*a], queries: vec![*q], ..base.clone() });
        }
    }
    for a in &qcore {
        for b in &qcore {
            v.push(Build { queries: vec![*a, *b], ..base.clone() });
        }
    }
    let some = [(vec![], vec![]), (vec![core[0]], vec![]), (vec![], vec![qcore[0]]), (vec![core[0]; 3], vec![qcore[0]; 3])];
    for (ms, qs) in &some {
        let b = Build { msgs: ms.clone(), queries: qs.clone(), ..base.clone() };
        for memo in memos().into_iter().chain(alpha::strings().into_iter().map(Some)) {
            v.push(Build { memo, ..b.clone() });
        }
        for time in [0, 1, 999_999_999, base.time, u64::MAX / 2, u64::MAX - 600_000_000_000, u64::MAX - 599_999_999_999, u64::MAX] {
            for timeout in timeouts(time) {
                v.push(Build { time, timeout, ..b.clone() });
            }
        }
        for t in alpha::u64s() {
            v.push(Build { timeout: Some(t), ..b.clone() });
        }
        for t in alpha::strings() {
            v.push(Build { ica: t.clone(), ..b.clone() });
            v.push(Build { channel: t, ..b.clone() });
        }
        for memo in [None, Some("m".to_string())] {
            v.push(Build { memo, encoding: "proto3json", ..b.clone() });
        }
    }
    for n in cases::list_lengths() {
        v.push(Build { msgs: vec![core[0]; n], ..base.clone() });
        v.push(Build { queries: vec![qcore[0]; n], ..base.clone() });
    }
    v
}

/// Text, acknowledgement, transaction result, query response by index.
type Read = (Vec<u8>, Json, Json, Vec<Json>);

/// A success acknowledgement with these message responses (type, bytes, as module query response)
/// and old-style results.
fn read_of(rs: &[(String, Vec<u8>, Json)], old: &[(String, Vec<u8>)]) -> Read {
    let any = |n: u32, t: &str, d: &[u8]| (n, V::M(pb::msg([pb::s(1, t), pb::b(2, d)])));
    let mut f: Vec<(u32, V)> = old.iter().map(|(t, d)| any(1, t, d)).collect();
    f.extend(rs.iter().map(|(t, d, _)| any(2, t, d)));
    let bytes = pb::enc(&f);
    let tx = json!({"data": old, "msg_responses": rs.iter().map(|(t, d, _)| json!([t, d])).collect::<Vec<_>>()});
    (ack_result(&bytes), json!({"result": b64(&bytes)}), tx, rs.iter().map(|r| r.2.clone()).collect())
}

/// Acknowledgements with what a reader must see: (text, acknowledgement, transaction result or
/// null, module query response by index).
fn reads() -> Vec<Read> {
    let q = |h: u64, r: &[Vec<u8>]| (QRESP.to_string(), query_resp_any(h, r), json!({"height": h, "responses": r}));
    let junk = ("/x.MsgJunkResponse".to_string(), vec![0x0a, 0x7f, 1], Json::Null);
    let mut v: Vec<Read> = vec![];
    // the position of the query response among others
    for n in 0..=6usize {
        for at in 0..n {
            for h in [0u64, 1, 127, 128, 4242, u64::MAX] {
                for rs in [vec![], vec![vec![]], vec![vec![1, 2, 3]], vec![vec![1], vec![], vec![0xff; 300]]] {
                    let list: Vec<_> = (0..n).map(|i| if i == at { q(h, &rs) } else { junk.clone() }).collect();
                    v.push(read_of(&list, &[]));
                }
            }
        }
        let list: Vec<_> = (0..n).map(|i| q(i as u64, &[vec![i as u8]])).collect();
        let old: Vec<_> = (0..n).map(|i| (format!("/t{i}"), vec![i as u8])).collect();
        v.push(read_of(&list, &[]));
        v.push(read_of(&[], &old));
        v.push(read_of(&list, &old));
    }
    for b in alpha::blobs() {
        v.push(read_of(&[q(7, &[b.clone(), b.clone()])], &[("/o".into(), b)]));
    }
    for h in alpha::u64s() {
        v.push(read_of(&[q(h, &[])], &[]));
    }
    for t in alpha::strings() {
        let mut x = q(7, &[vec![5]]);
        x.0.clone_from(&t);
        v.push(read_of(&[x], &[(t.clone(), vec![1])]));
        v.push((ack_error(&t), json!({"error": t}), Json::Null, vec![]));
    }
    // results that are no transaction results
    let (full, ..) = (result_bytes(1, Some((9, &[vec![1, 2, 3]]))),);
    for l in 0..full.len() {
        if pb::dec(&full[..l]).is_none() {
            v.push((ack_result(&full[..l]), json!({"result": b64(&full[..l])}), Json::Null, vec![]));
        }
    }
    for b in [vec![0xff], vec![0x0a], vec![0x12, 0x7f], b"{}".to_vec()] {
        v.push((ack_result(&b), json!({"result": b64(&b)}), Json::Null, vec![]));
    }
    v
}

pub fn c24(rep: &mut Report, deep: bool) {
    if unusable(rep) {
        return;
    }
    let bs = builds(deep);
    let rs = reads();
    let mut os = vec![];
    for c in ["connection-0", "connection-1", "", "a\"b\\c/\n"] {
        for cc in ["connection-1", "connection-7", "", "Ünïcødé"] {
            for p in [None, Some("icahost"), Some(""), Some("transfer")] {
                for o in [None, Some(Ord_::Ordered), Some(Ord_::Unordered)] {
                    os.push((Opts::new(c, cc, p, o), contract_addr()));
                }
            }
        }
    }
    for contract in ["wasm.x", "wasm.", "WASM1X", " x "] {
        os.push((opts_a(), contract.to_string()));
    }
    for t in alpha::strings() {
        os.push((Opts::new(&t, "connection-1", None, None), contract_addr()));
        os.push((Opts::new("connection-0", &t, None, None), contract_addr()));
        os.push((Opts::new("connection-0", "connection-1", Some(&t), None), contract_addr()));
        os.push((Opts::new("connection-0", "connection-1", None, None), t));
    }
    let cbs: Vec<Json> = {
        let mut v = vec![];
        for w in [opened(opts_u(), "cosmos1ica", Some(addr("cb1"))), opened(opts_a(), "cosmos1ica", Some(addr("cb2")))].iter().flatten() {
            for p in packets() {
                let w = with_packet(w, 256, p.clone());
                for ack in acks() {
                    v.extend(expected(&w, &Act::Ack { ch: 0, seq: 256, ack, relayer: addr("relayer"), cb_ok: true }));
                }
                v.extend(expected(&w, &Act::Timeout { ch: 0, seq: 256, relayer: addr("relayer"), cb_ok: true }));
            }
        }
        for o in [opts_a(), opts_u()] {
            let w = step(&World::new(Params::default()), &inst(o, Some(addr("cb1")))).0;
            if let Some(c) = w.chans.first() {
                v.extend(expected(&w, &Act::OpenAck { ch: 0, version: host_version(c, "cosmos1ica"), cpty_chan: cpty_id(0), cb_ok: true }));
            }
        }
        v
    };
    rep.bounds.push(format!("4 library builds (with/without query, with/without staking), each: {} packets (every message and query of C11/C12, all pairs of kinds{}, memos, timeouts, block times, account and channel names, both encodings); {} channel proposals x 3 encodings; {} acknowledgements (position and content of the query response, error texts, truncations); {} callbacks", bs.len(), if deep { ", all triples of message kinds" } else { "" }, os.len(), rs.len(), cbs.len()));
    for i in [0, bs.len() / 2, bs.len() - 1] {
        let b = &bs[i];
        rep.samples.push(json!({"config": "packet", "messages": b.msgs.iter().map(|m| &cases::msgs()[*m as usize].json).collect::<Vec<_>>(), "queries": b.queries.len(), "memo": b.memo, "timeout": b.timeout}));
    }
    let chunk = 2000;
    let chunks = bs.len().div_ceil(chunk);
    enumerate_batches(rep, "packets of every build", BUILDS.len() * chunks, |i| {
        let (build, query) = BUILDS[i % BUILDS.len()];
        let staking = build.ends_with('1');
        let part = &bs[i / BUILDS.len() * chunk..((i / BUILDS.len() + 1) * chunk).min(bs.len())];
        let mut peer = Peer::new(build);
        for b in part {
            judge_build(&mut peer, build, staking, query, b).map_err(|e| {
                (e, json!({"build": build, "messages": b.msgs.iter().map(|m| &cases::msgs()[*m as usize].json).collect::<Vec<_>>(), "queries": b.queries.iter().map(|m| &cases::queries()[*m as usize].json).collect::<Vec<_>>(), "memo": b.memo, "timeout": b.timeout, "block_time": b.time, "account": b.ica, "channel": b.channel, "encoding": b.encoding}))
            })?;
        }
        Ok(part.len() as u64)
    });
    enumerate_batches(rep, "channel proposals of every build", BUILDS.len(), |i| {
        let (build, _) = BUILDS[i];
        let mut peer = Peer::new(build);
        for (o, contract) in &os {
            for enc in [None, Some("proto3"), Some("proto3json")] {
                let mut v = o.json();
                v["op"] = json!("open_init");
                v["contract"] = json!(contract);
                v["encoding"] = json!(enc);
                let run = |peer: &mut Peer| -> Result<(), String> {
                    let r = peer.ask(&v)?;
                    let m: CosmosMsg = from_json(r.as_str().unwrap_or("").as_bytes()).map_err(|e| e.to_string())?;
                    proposes_for(&m, o, contract, enc.unwrap_or("proto3"))
                };
                run(&mut peer).map_err(|e| (format!("build {build}: {e}"), json!({"build": build, "proposal": v})))?;
            }
        }
        Ok(os.len() as u64 * 3)
    });
    enumerate_batches(rep, "acknowledgements in every build", BUILDS.len(), |i| {
        let (build, query) = BUILDS[i];
        let mut peer = Peer::new(build);
        for (text, ack, tx, qs) in &rs {
            let text = String::from_utf8_lossy(text).into_owned();
            let case = || json!({"build": build, "acknowledgement": text});
            let r = peer.ask(&json!({"op": "ack", "text": text})).map_err(|e| (format!("build {build} cannot read an acknowledgement: {e}"), case()))?;
            let mut want = vec![];
            if query {
                want = qs.clone();
                want.resize(8.max(want.len()), Json::Null);
                want.truncate(8);
                want.extend((8..12).map(|_| Json::Null));
            }
            let want = json!({"ack": ack, "tx": tx, "queries": want});
            if r != want {
                return Err((format!("build {build} reads {r}, expected {want}"), case()));
            }
        }
        for text in ["", "{}", "null", "\"x\"", "{\"result\":5}", "{\"result\":\"*\"}", "{\"results\":\"AQ==\"}", "{\"error\":{}}", "[]", "{\"result\":\"AQ==\"", "AQ=="] {
            if let Ok(r) = peer.ask(&json!({"op": "ack", "text": text})) {
                return Err((format!("build {build} reads {text} as {r}"), json!({"build": build, "acknowledgement": text})));
            }
        }
        Ok(rs.len() as u64)
    });
    enumerate_batches(rep, "callbacks built in every build", BUILDS.len(), |i| {
        let (build, _) = BUILDS[i];
        let mut peer = Peer::new(build);
        for (j, cb) in cbs.iter().enumerate() {
            for to in [addr("cb1"), format!("contract{j}"), format!(" Contract-{j} "), format!("{j}"), addr("cb1").to_uppercase(), String::new()] {
                let case = || json!({"build": build, "callback": cb, "to": to});
                let r = peer.ask(&json!({"op": "build_callback", "callback": cb, "to": to})).map_err(|e| (format!("build {build}: {e}"), case()))?;
                let m: CosmosMsg = from_json(r.as_str().unwrap_or("").as_bytes()).map_err(|e| (e.to_string(), case()))?;
                let good = match &m {
                    CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                        let got: Json = serde_json::from_slice(msg).unwrap_or(Json::Null);
                        *contract_addr == to && funds.is_empty() && strip(&got) == strip(&json!({"receive_ica_callback": cb}))
                    }
                    _ => false,
                };
                if !good {
                    return Err((format!("build {build} builds {m:?}"), case()));
                }
            }
        }
        Ok(cbs.len() as u64 * 2)
    });
}
