//! C10 .. C12: what is sent to the host.

use super::*;
use crate::alpha;
use crate::cases::Expect;
use crate::engine::{enumerate, explore, none, Cfg, Report};

fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let b: Vec<u8> = s.bytes().filter(|c| *c != b'=').collect();
    for ch in b.chunks(4) {
        let mut n = 0u32;
        for (i, c) in ch.iter().enumerate() {
            let v = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            n |= u32::from(v) << (18 - 6 * i);
        }
        out.extend_from_slice(&n.to_be_bytes()[1..ch.len()]);
    }
    Some(out)
}

/// The transaction bytes inside packet data.
pub fn packet_tx(v: &Json) -> Option<Vec<u8>> {
    match &v["data"] {
        Json::Array(a) => a.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect(),
        Json::String(s) => unb64(s),
        _ => None,
    }
}

/// The (type, value) pairs of a transaction.
fn anys(tx: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let f = pb::dec(tx).ok_or("the transaction is not protobuf")?;
    f.iter()
        .map(|(n, r)| match (n, r) {
            (1, pb::R::B(x)) => {
                let a = pb::dec(x).ok_or("a message is not protobuf")?;
                if a.iter().any(|(n, _)| *n > 2) {
                    return Err("unexpected field in Any".to_string());
                }
                Ok((pb::get_s(&a, 1), pb::get_b(&a, 2).to_vec()))
            }
            x => Err(format!("unexpected field in the transaction: {x:?}")),
        })
        .collect()
}

pub struct Sent {
    pub channel: String,
    pub json: Json,
    pub tx: Vec<u8>,
    pub ts: Option<u64>,
    pub block: bool,
}

/// The single packet emitted by an accepted send.
fn the_packet(r: &Rec) -> Result<Sent, String> {
    let h = r.head().ok_or("no call")?;
    chk(h.msgs.len() == 1, || format!("{} messages emitted instead of one packet", h.msgs.len()))?;
    if r.accepted {
        chk(r.all_msgs().len() == 1, || format!("the send emitted {} messages instead of one packet", r.all_msgs().len()))?;
    }
    match &h.msgs[0].msg {
        CosmosMsg::Ibc(cosmwasm_std::IbcMsg::SendPacket { channel_id, data, timeout }) => {
            let json: Json = serde_json::from_slice(data).map_err(|e| format!("packet data: {e}"))?;
            let tx = packet_tx(&json).ok_or_else(|| format!("packet data {json}"))?;
            Ok(Sent { channel: channel_id.clone(), tx, json, ts: timeout.timestamp().map(|t| t.nanos()), block: timeout.block().is_some() })
        }
        m => Err(format!("not a packet: {m:?}")),
    }
}

const QUERY_TYPE: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe";

pub fn supported(msgs: &[u32], queries: &[u32]) -> bool {
    msgs.iter().all(|m| !matches!(cases::msgs()[*m as usize].expect, Expect::Unsupported)) && queries.iter().all(|q| cases::queries()[*q as usize].expect.is_some())
}

fn judge_msg(i: usize, c: &cases::MsgCase, got: &(String, Vec<u8>), ica: &str) -> Result<(), String> {
    let (t, r) = match &c.expect {
        Expect::Any { type_url, msg } => (type_url, pb::same(&cases::with_signer(msg, ica), &got.1)),
        Expect::Raw { type_url, value } => (type_url, chk(*value == got.1, || "raw bytes differ".into())),
        Expect::Unsupported => return Err("unsupported message sent".into()),
    };
    chk(*t == got.0, || format!("message {i} ({}): type {}, expected {t}", c.json, got.0))?;
    r.map_err(|e| format!("message {i} ({}): {e}", c.json))
}

fn judge_queries(got: &(String, Vec<u8>), queries: &[u32], ica: &str) -> Result<(), String> {
    chk(got.0 == QUERY_TYPE, || format!("query message type {}", got.0))?;
    let mut f: pb::Msg = pb::msg([pb::s(1, ica)]);
    let raw = pb::dec(&got.1).ok_or("query message is not protobuf")?;
    let reqs = pb::get_rep(&raw, 2);
    chk(reqs.len() == queries.len(), || format!("{} requests for {} queries", reqs.len(), queries.len()))?;
    for (i, q) in queries.iter().enumerate() {
        let c = &cases::queries()[*q as usize];
        let (path, want) = c.expect.as_ref().ok_or("unsupported query sent")?;
        let g = pb::dec(&reqs[i]).ok_or("request is not protobuf")?;
        chk(pb::get_s(&g, 1) == *path, || format!("query {i} ({}): path {}, expected {path}", c.json, pb::get_s(&g, 1)))?;
        let data = pb::get_b(&g, 2);
        match want {
            Ok(m) => pb::same(m, data).map_err(|e| format!("query {i} ({}): {e}", c.json))?,
            Err(b) => chk(b == data, || format!("query {i} ({}): raw bytes differ", c.json))?,
        }
        f.push((2, V::M(pb::msg([pb::s(1, path), pb::b(2, data)]))));
    }
    pb::same(&f, &got.1)
}

/// Judges one send: `messages` = judge the messages, `queries` = judge the query part.
fn judge_send(w: &World, r: &Rec, req: &Req, messages: bool, queries_too: bool) -> Result<(), String> {
    let Req::Send { msgs, queries, .. } = req else { return Ok(()) };
    if w.ghost.tracked.is_none() {
        return Ok(());
    }
    if !supported(msgs, queries) {
        return chk(!r.head_ok(), || "a request with an unsupported message or query was accepted".into());
    }
    if !r.head_ok() && w.open_chan() != w.ghost.tracked {
        // the chain would refuse the packet anyway
        return Ok(());
    }
    chk(r.head_ok(), || format!("a supported request was refused: {}", r.err))?;
    let p = the_packet(r)?;
    judge_tx(&p.tx, msgs, queries, &w.ghost.ica, messages, queries_too)
}

/// Does the transaction hold exactly these messages and queries?
pub fn judge_tx(tx: &[u8], msgs: &[u32], queries: &[u32], ica: &str, messages: bool, queries_too: bool) -> Result<(), String> {
    let a = anys(tx)?;
    let want = msgs.len() + usize::from(!queries.is_empty());
    chk(a.len() == want, || format!("{} host messages, expected {want}", a.len()))?;
    if messages {
        for (i, m) in msgs.iter().enumerate() {
            judge_msg(i, &cases::msgs()[*m as usize], &a[i], ica)?;
        }
    }
    if queries_too && !queries.is_empty() {
        judge_queries(&a[msgs.len()], queries, ica)?;
    }
    Ok(())
}

/// A chain with an open channel (None if it cannot be reached).
pub fn opened(o: Opts, ica: &str, cb: Option<String>) -> Option<World> {
    let w = World::new(Params::default());
    let (w, r) = step(&w, &inst(o, cb));
    if !r.accepted {
        return None;
    }
    let v = host_version(w.chans.first()?, ica);
    let (w, r) = step(&w, &Act::OpenAck { ch: 0, version: v, cpty_chan: cpty_id(0), cb_ok: true });
    r.accepted.then_some(w)
}

/// Over a reopened channel with another account.
pub fn reopened(o: Opts, ica: &str) -> Option<World> {
    let w = opened(o, "cosmos1previous", None)?;
    let (w, r) = step(&w, &Act::CloseConfirm { ch: 0 });
    if !r.accepted {
        return None;
    }
    let (w, r) = step(&w, &exec(&w.ghost.owner, Req::Create(None)));
    if !r.accepted {
        return None;
    }
    let v = host_version(w.chans.get(1)?, ica);
    let (w, r) = step(&w, &Act::OpenAck { ch: 1, version: v, cpty_chan: cpty_id(1), cb_ok: true });
    r.accepted.then_some(w)
}

pub fn memos() -> Vec<Option<String>> {
    let mut v = vec![None];
    for s in ["", "memo", " ", "{\"wasm\":{\"contract\":\"x\"}}", "quote\" back\\ slash/ tab\t nl\n nul\u{0} del\u{7f}", "Ünïcødé → 🚀", "null"] {
        v.push(Some(s.to_string()));
    }
    v.push(Some("x".repeat(3000)));
    v
}

pub fn timeouts(t0: u64) -> Vec<Option<u64>> {
    let max = (u64::MAX - t0) / 1_000_000_000;
    vec![None, Some(0), Some(1), Some(59), Some(600), Some(601), Some(86_400), Some(u64::from(u32::MAX)), Some(u64::from(u32::MAX) + 1), Some(max), Some(max + 1), Some(u64::MAX / 1_000_000_000), Some(u64::MAX / 1_000_000_000 + 1), Some(18_446_744_074), Some(1 << 55), Some(u64::MAX)]
}

fn judge_envelope(w: &World, r: &Rec, req: &Req) -> Result<(), String> {
    let Req::Send { msgs, queries, memo, timeout } = req else { return Ok(()) };
    let Some(t) = w.ghost.tracked else {
        return chk(!r.head_ok(), || "a send before any channel has completed was accepted".into());
    };
    let ts = 1_000_000_000u64.checked_mul(timeout.unwrap_or(600)).and_then(|x| x.checked_add(w.time));
    let Some(ts) = ts else {
        return chk(!r.head_ok(), || format!("a timeout of {timeout:?} s cannot be represented but was accepted"));
    };
    if !supported(msgs, queries) {
        return Ok(());
    }
    if !r.head_ok() && w.open_chan() != w.ghost.tracked {
        return Ok(());
    }
    chk(r.head_ok(), || format!("a send was refused: {}", r.err))?;
    let p = the_packet(r)?;
    chk(p.channel == w.chans[t].id, || format!("the packet goes over {}, the tracked channel is {}", p.channel, w.chans[t].id))?;
    chk(p.ts == Some(ts) && !p.block, || format!("timeout {:?} (height timeout: {}), expected {ts} at block time {}", p.ts, p.block, w.time))?;
    let o = p.json.as_object().ok_or("packet data is not an object")?;
    chk(o.keys().all(|k| ["type", "data", "memo"].contains(&k.as_str())), || format!("packet data is {}", p.json))?;
    let ty = &p.json["type"];
    chk(*ty == json!(1) || *ty == json!("TYPE_EXECUTE_TX"), || format!("packet type {ty}"))?;
    let got = o.get("memo");
    let want = memo.as_ref().map(|m| json!(m));
    chk(got == want.as_ref(), || format!("memo {got:?}, expected {want:?}"))?;
    let n = anys(&p.tx)?.len();
    let want = msgs.len() + usize::from(!queries.is_empty());
    chk(n == want, || format!("{n} host messages in the transaction, expected {want}"))
}

pub fn c10(rep: &mut Report, deep: bool) {
    if deep {
        // many explorations with many probes
        crate::engine::EXTEND.store(15_000, std::sync::atomic::Ordering::Relaxed);
    }
    rep.bounds.push("4 memos x 6 timeouts x 6 request shapes in every reached life-cycle state (histories of transactions up to the depth of each exploration, up to 3 channels; 4 block times, with and without transaction index); full product of 9 memos x 16 timeouts x 6 shapes, 150 memo texts x 6 shapes, all pairs of 250 block times and timeouts, every timeout up to 20000 / 200000 s and all list lengths of the alphabet, over 4 channels".into());
    let q = cases::query_id("balance");
    let m = cases::msg_id("bank_send");
    let shapes = [(vec![m], vec![]), (vec![], vec![]), (vec![m, m], vec![q]), (vec![], vec![q, q]), (vec![cases::msg_id("stargate"), m], vec![]), (vec![m; 7], vec![])];
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| match a {
        Act::Exec { from, req, .. } if *from == w.ghost.owner => judge_envelope(w, r, req),
        _ => Ok(()),
    };
    for (i, (t0, tx)) in [(1_700_000_000_123_456_789u64, Some(3)), (1, None), (u64::MAX - 600_000_000_000, Some(0)), (1_999_999_999_999_999_999, None)].into_iter().enumerate() {
        let probe = |w: &World| {
            if !w.inst {
                return vec![];
            }
            let mut v = vec![];
            for memo in memos().into_iter().take(4) {
                for timeout in timeouts(w.time).into_iter().step_by(3) {
                    for (ms, qs) in &shapes {
                        v.push(exec(&w.ghost.owner, Req::Send { msgs: ms.clone(), queries: qs.clone(), memo: memo.clone(), timeout }));
                    }
                }
            }
            v
        };
        let k = Knobs {
            insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
            creates: vec![None, Some(opts_b())],
            close: true,
            close_confirm: true,
            sends: vec![send1(), send(vec![], vec![q])],
            acks: vec![AckK::Good],
            timeouts: true,
            transfers: vec![(addr("heir"), None)],
            accepts: vec![addr("heir")],
            migrate: true,
            max_chans: 3,
            max_sends: 2,
            max_inflight: 2,
            advances: vec![(7, 1)],
            max_adv: 1,
            ..Knobs::default()
        };
        let depth = match (i, deep) {
            (0, true) => 8,
            (0, false) => 7,
            (_, true) => 6,
            (_, false) => 5,
        };
        explore(rep, &Cfg { name: format!("envelope, block time {t0}"), root: World::new(Params { t0, tx_index: tx, ..Params::default() }), depth, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    }
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &none, &mon);
    // the full product, and each element through its whole alphabet, over first and later channels
    let times = alpha::u64s();
    let names: Vec<String> = ["channel-18446744073709551615", "channel-7", "channel-007"].iter().map(|s| s.to_string()).collect();
    let mut worlds: Vec<World> = [opened(opts_a(), "cosmos1ica", None), opened(opts_u(), "cosmos1ica", Some(addr("cb1"))), reopened(opts_b(), "juno1newaccount")].into_iter().flatten().collect();
    let (w, _) = step(&World::new(Params { chan_names: names, ..Params::default() }), &inst(opts_u(), None));
    if let Some(c) = w.chans.first() {
        let (w, r) = step(&w, &Act::OpenAck { ch: 0, version: host_version(c, "cosmos1x"), cpty_chan: cpty_id(0), cb_ok: true });
        if r.accepted {
            worlds.push(w);
        }
    }
    let go = |w: &World, req: Req| {
        let (_, r) = step(w, &exec(&w.ghost.owner, req.clone()));
        judge_envelope(w, &r, &req).map_err(|e| (e, json!({"time": w.time, "request": req.json()})))
    };
    let (ms_, ts_) = (memos(), timeouts(worlds.first().map_or(0, |w| w.time)));
    enumerate(rep, "product", ms_.len() * ts_.len() * shapes.len(), |i| {
        let (memo, rest) = (&ms_[i % ms_.len()], i / ms_.len());
        let (timeout, (msgs, queries)) = (ts_[rest % ts_.len()], &shapes[rest / ts_.len()]);
        for w in &worlds {
            go(w, Req::Send { msgs: msgs.clone(), queries: queries.clone(), memo: memo.clone(), timeout })?;
        }
        Ok(worlds.len() as u64)
    });
    let texts = alpha::strings();
    enumerate(rep, "memos", texts.len() * shapes.len(), |i| {
        let (t, (msgs, queries)) = (&texts[i % texts.len()], &shapes[i / texts.len()]);
        for w in &worlds {
            go(w, Req::Send { msgs: msgs.clone(), queries: queries.clone(), memo: Some(t.clone()), timeout: None })?;
        }
        Ok(worlds.len() as u64)
    });
    enumerate(rep, "block times and timeouts", times.len() * (times.len() + 1), |i| {
        let (t, to) = (times[i % times.len()], i / times.len());
        let timeout = to.checked_sub(1).map(|i| times[i]);
        for w in worlds.iter().take(2) {
            let mut w = w.clone();
            w.time = t;
            for (msgs, queries) in [&shapes[0], &shapes[3]] {
                go(&w, Req::Send { msgs: msgs.clone(), queries: queries.clone(), memo: None, timeout })?;
            }
        }
        Ok(4)
    });
    enumerate(rep, "every number of seconds", if deep { 200_000 } else { 20_000 }, |i| {
        for w in worlds.iter().take(1) {
            go(w, Req::Send { msgs: vec![m], queries: vec![], memo: None, timeout: Some(i as u64) })?;
        }
        Ok(1)
    });
    enumerate(rep, "huge requests", 3, |i| {
        let (msgs, queries) = [(vec![m; 60_000], vec![]), (vec![], vec![q; 60_000]), (vec![m; 40_000], vec![q; 20_000])][i].clone();
        for w in worlds.iter().take(1) {
            go(w, Req::Send { msgs: msgs.clone(), queries: queries.clone(), memo: None, timeout: None })?;
        }
        Ok(1)
    });
    let lens = cases::list_lengths();
    enumerate(rep, "numbers of messages and queries", lens.len() * 3, |i| {
        let n = lens[i / 3];
        let (msgs, queries) = [(vec![m; n], vec![]), (vec![], vec![q; n]), (vec![m; n], vec![q; n])][i % 3].clone();
        for w in &worlds {
            go(w, Req::Send { msgs: msgs.clone(), queries: queries.clone(), memo: None, timeout: Some(60) })?;
        }
        Ok(worlds.len() as u64)
    });
}

fn send_case(rep: &mut Report, name: &str, worlds: &[World], n: usize, f: impl Fn(usize) -> (Vec<u32>, Vec<u32>) + Sync, messages: bool, queries: bool) {
    enumerate(rep, name, n, |i| {
        let (ms, qs) = f(i);
        for w in worlds {
            let req = send(ms.clone(), qs.clone());
            let (_, r) = step(w, &exec(&w.ghost.owner, req.clone()));
            judge_send(w, &r, &req, messages, queries).map_err(|e| (e, json!({"account": w.ghost.ica, "request": req.json()})))?;
        }
        Ok(worlds.len() as u64)
    });
}

/// Sequences of length `len` over `alpha`, by number.
fn seq(alpha: &[u32], len: u32, mut i: usize) -> Vec<u32> {
    (0..len)
        .map(|_| {
            let x = alpha[i % alpha.len()];
            i /= alpha.len();
            x
        })
        .collect()
}

/// Every length of an account address, and unusual ones.
fn accounts(rep: &mut Report, shapes: Vec<(Vec<u32>, Vec<u32>)>, messages: bool, queries: bool) {
    let mut icas: Vec<String> = (1..=128usize).map(|n| "cosmos1qypqxpq9qcrsszg2pvxq6rs0zqg3yyc5lzv7xu".chars().cycle().take(n).collect()).collect();
    icas.extend(["0", "A", "OSMO1UPPER", "MixedCase1", "123456", "0x1F98431c8aD98523631AE4a59f267346ea31F984", "null", "true", "ica"].map(String::from));
    let mut worlds = vec![];
    for a in &icas {
        worlds.extend(opened(opts_u(), a, None));
    }
    if worlds.is_empty() {
        return;
    }
    enumerate(rep, "accounts", worlds.len() * shapes.len(), |i| {
        let (w, (ms, qs)) = (&worlds[i % worlds.len()], &shapes[i / worlds.len()]);
        let req = send(ms.clone(), qs.clone());
        let (_, r) = step(w, &exec(&w.ghost.owner, req.clone()));
        judge_send(w, &r, &req, messages, queries).map_err(|e| (e, json!({"account": w.ghost.ica, "request": req.json()})))?;
        Ok(1)
    });
}

fn lifecycle_sends(rep: &mut Report, deep: bool, sends: Vec<Req>, messages: bool, queries: bool) {
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b())],
        close: true,
        close_confirm: true,
        sends: sends.iter().take(2).cloned().collect(),
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        addrs: 2,
        max_chans: 3,
        max_inflight: 2,
        max_sends: 2,
        ..Knobs::default()
    };
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| match a {
        Act::Exec { from, req, .. } if *from == w.ghost.owner => judge_send(w, r, req, messages, queries),
        _ => Ok(()),
    };
    let probe = |w: &World| if w.inst { sends.iter().map(|s| exec(&w.ghost.owner, s.clone())).collect() } else { vec![] };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 10 } else { 8 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
}

pub fn c11(rep: &mut Report, deep: bool) {
    let all = cases::msgs();
    let core: Vec<u32> = (0..all.len() as u32).filter(|i| all[*i as usize].core).collect();
    let long = "a1".repeat(64);
    let worlds: Vec<World> = [opened(opts_a(), "cosmos1ica", None), opened(opts_u(), &long, Some(addr("cb1"))), reopened(opts_b(), "juno1newaccount")].into_iter().flatten().collect();
    rep.bounds.push(format!("{} single messages (boundary product of every field of every message kind) for 3 accounts; all sequences of length 2 and 3 (thorough: 4) over {} kinds, supported and unsupported, alone and followed by queries; up to 257 repetitions of every kind, alone and with another one before or after; 137 accounts of all lengths x all kinds; all kinds in every life-cycle state of histories of transactions up to the depth of each exploration", all.len(), core.len()));
    send_case(rep, "single messages", &worlds, all.len(), |i| (vec![i as u32], vec![]), true, false);
    let n = core.len();
    send_case(rep, "pairs", &worlds, n * n, |i| (seq(&core, 2, i), vec![]), true, false);
    send_case(rep, "triples", &worlds[..worlds.len().min(1)], n * n * n, |i| (seq(&core, 3, i), vec![]), true, false);
    let q = cases::query_id("balance");
    send_case(rep, "pairs with query", &worlds[..worlds.len().min(1)], n * n, |i| (seq(&core, 2, i), vec![q]), true, false);
    if deep {
        send_case(rep, "quadruples", &worlds[..worlds.len().min(1)], n * n * n * n, |i| (seq(&core, 4, i), vec![]), true, false);
        // every case next to a fixed neighbour on either side
        let b = cases::msg_id("bank_send");
        send_case(rep, "neighbours", &worlds[..worlds.len().min(1)], all.len() * 2, |i| if i % 2 == 0 { (vec![b, i as u32 / 2], vec![]) } else { (vec![i as u32 / 2, b], vec![q]) }, true, false);
    }
    // long sequences
    let sup: Vec<u32> = core.iter().copied().filter(|c| supported(&[*c], &[])).collect();
    send_case(rep, "long sequences", &worlds, 64, |i| ((0..i as u32 * 2).map(|j| sup[(j as usize * 7 + i) % sup.len()]).collect(), vec![]), true, false);
    let lens = cases::list_lengths();
    send_case(rep, "repetitions", &worlds[..worlds.len().min(1)], sup.len() * lens.len(), |i| (vec![sup[i % sup.len()]; lens[i / sup.len()]], vec![]), true, false);
    send_case(rep, "repetitions with one other", &worlds[..worlds.len().min(1)], sup.len() * lens.len() * 2, |i| {
        let mut v = vec![sup[i % sup.len()]; lens[i / sup.len() % lens.len()]];
        let other = sup[(i + 1) % sup.len()];
        if i / sup.len() / lens.len() == 0 {
            v.push(other);
        } else {
            v.insert(0, other);
        }
        (v, vec![q])
    }, true, false);
    accounts(rep, sup.iter().map(|c| (vec![*c], vec![])).collect(), true, false);
    let mut sends: Vec<Req> = core.iter().map(|c| send(vec![*c], vec![])).collect();
    sends.push(send(vec![], vec![]));
    sends.push(send(sup.clone(), vec![]));
    sends.push(send(sup, vec![q]));
    lifecycle_sends(rep, deep, sends, true, false);
}

pub fn c12(rep: &mut Report, deep: bool) {
    let all = cases::queries();
    let core: Vec<u32> = (0..all.len() as u32).filter(|i| all[*i as usize].core).collect();
    let worlds: Vec<World> = [opened(opts_a(), "cosmos1ica", None), opened(opts_u(), &"a1".repeat(64), Some(addr("cb1"))), reopened(opts_b(), "juno1newaccount")].into_iter().flatten().collect();
    rep.bounds.push(format!("{} single queries (boundary product of every field of every query kind), all sequences of length 2 and 3 (thorough: 4) over {} kinds, supported and unsupported, after 0, 1 and 2 messages, for 3 accounts; up to 257 repetitions of every kind, alone and with another one before or after, and after up to 257 messages; 137 accounts of all lengths x all kinds; all kinds in every life-cycle state of histories of transactions up to the depth of each exploration", all.len(), core.len()));
    let m = cases::msg_id("bank_send");
    let g = cases::msg_id("gov_vote");
    let x = cases::msg_id("x_burn");
    let qq = cases::msgs().iter().position(|c| c.kind == "stargate" && matches!(&c.expect, Expect::Raw { type_url, .. } if type_url == QUERY_TYPE)).unwrap() as u32;
    let before: Vec<Vec<u32>> = vec![vec![], vec![m], vec![m, g], vec![qq], vec![x]];
    send_case(rep, "single queries", &worlds, all.len() * before.len(), |i| (before[i % before.len()].clone(), vec![(i / before.len()) as u32]), true, true);
    let n = core.len();
    send_case(rep, "pairs", &worlds, n * n * before.len(), |i| (before[i % before.len()].clone(), seq(&core, 2, i / before.len())), true, true);
    send_case(rep, "triples", &worlds[..worlds.len().min(1)], n * n * n, |i| (vec![], seq(&core, 3, i)), true, true);
    if deep {
        send_case(rep, "quadruples", &worlds[..worlds.len().min(1)], n * n * n * n, |i| (vec![], seq(&core, 4, i)), true, true);
    }
    let sup: Vec<u32> = core.iter().copied().filter(|c| supported(&[], &[*c])).collect();
    send_case(rep, "long sequences", &worlds, 64, |i| (vec![], (0..i as u32 * 2).map(|j| sup[(j as usize * 5 + i) % sup.len()]).collect()), true, true);
    let lens = cases::list_lengths();
    send_case(rep, "repetitions", &worlds[..worlds.len().min(1)], sup.len() * lens.len(), |i| (vec![], vec![sup[i % sup.len()]; lens[i / sup.len()]]), true, true);
    send_case(rep, "repetitions with one other", &worlds[..worlds.len().min(1)], sup.len() * lens.len() * 2, |i| {
        let mut v = vec![sup[i % sup.len()]; lens[i / sup.len() % lens.len()]];
        let other = sup[(i + 1) % sup.len()];
        if i / sup.len() / lens.len() == 0 {
            v.push(other);
        } else {
            v.insert(0, other);
        }
        (vec![m], v)
    }, true, true);
    send_case(rep, "after many messages", &worlds[..worlds.len().min(1)], lens.len(), |i| (vec![m; lens[i]], sup.clone()), true, true);
    accounts(rep, sup.iter().map(|c| (vec![], vec![*c])).collect(), true, true);
    let mut sends: Vec<Req> = core.iter().map(|c| send(vec![], vec![*c])).collect();
    sends.push(send(vec![m], vec![]));
    sends.push(send(vec![m, g], sup.clone()));
    sends.push(send(vec![], sup));
    lifecycle_sends(rep, deep, sends, true, true);
}
