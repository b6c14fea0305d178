//! C25 .. C27: packets never get stuck, nothing else is ever emitted, where it runs does not matter.

use super::*;
use crate::engine::{enumerate, explore, none, Cfg, Report};

// ---------------------------------------------------------------------------------------------
// C25

/// Acknowledgements that a host sends: an error, or the results of the packet's messages (with
/// those of the queries in the last place). Anything is a result of a packet without queries.
fn readable(p: &Pkt, ack: &[u8]) -> bool {
    let Ok(v) = serde_json::from_slice::<Json>(ack) else { return false };
    if let Some(e) = v["error"].as_str() {
        return ack == ack_error(e);
    }
    let Some(b) = v["result"].as_str().and_then(|r| cosmwasm_std::Binary::from_base64(r).ok()) else { return false };
    ack == ack_result(&b) && (p.queries.is_empty() || [AckK::Good, AckK::Short, AckK::Junk].iter().any(|k| ack == ack_for(p, *k)))
}

fn never_stuck(w: &World, a: &Act, r: &Rec, n: &World) -> Result<(), String> {
    // the contract is reached only with what the core lets through
    if r.calls.is_empty() || with_failing(a) && w.ghost.cb.is_some() {
        return Ok(());
    }
    match a {
        Act::Ack { ch, seq, ack, .. } if w.chans[*ch].st == St::Open && readable(&w.chans[*ch].packets[seq], ack) => {
            chk(r.accepted, || format!("an acknowledgement of a packet in flight is refused: {}", r.err))?;
            chk(!n.chans[*ch].packets.contains_key(seq), || "the packet is still in flight".into())
        }
        Act::Timeout { ch, seq, .. } => {
            chk(r.accepted, || format!("the timeout of a packet in flight is refused: {}", r.err))?;
            chk(!n.chans[*ch].packets.contains_key(seq), || "the packet is still in flight".into())
        }
        _ => Ok(()),
    }
}

fn with_failing(a: &Act) -> bool {
    matches!(a, Act::Ack { cb_ok: false, .. } | Act::Timeout { cb_ok: false, .. })
}

fn settle_all(w: &World) -> Vec<Act> {
    let mut v = vec![];
    for (ch, c) in w.chans.iter().enumerate() {
        for (seq, p) in &c.packets {
            let mut acks: Vec<Vec<u8>> = [AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk].into_iter().filter(|k| k.applies(p)).map(|k| ack_for(p, k)).collect();
            acks.extend([ack_error(&"e".repeat(5000)), ack_error("\"quoted\" {\"error\":1} \\ ü"), ack_result(b""), ack_result(&[0xff; 40])]);
            for relayer in [addr("relayer"), addr("stranger"), w.ghost.owner.clone()] {
                v.extend(acks.iter().map(|ack| Act::Ack { ch, seq: *seq, ack: ack.clone(), relayer: relayer.clone(), cb_ok: true }));
                v.push(Act::Timeout { ch, seq: *seq, relayer, cb_ok: true });
            }
        }
    }
    v
}

pub fn c25(rep: &mut Report, deep: bool) {
    if deep {
        crate::engine::EXTEND.store(10_000, std::sync::atomic::Ordering::Relaxed);
    }
    rep.bounds.push("all histories of transactions up to the depth of each exploration; in every reached state every packet in flight, on current and earlier channels, meets up to nine kinds of acknowledgement and a timeout, each from three relayers; histories in which a failing callback contract stops the settlement are included, the stopped step being exempt".into());
    let q = cases::query_id("balance");
    for (name, os) in [("ordered", [opts_a(), opts_u()]), ("unordered", [opts_u(), opts_a()])] {
        for cb in [None, Some(addr("cb1"))] {
            let k = Knobs {
                insts: vec![inst(os[0].clone(), cb.clone())],
                creates: vec![None, Some(os[1].clone())],
                close: true,
                close_confirm: true,
                sends: vec![send1(), send(vec![cases::msg_id("bank_send")], vec![q, cases::query_id("stargate")])],
                acks: vec![AckK::Good, AckK::Error],
                timeouts: true,
                cb_fail: true,
                setcb: vec![None, Some(addr("cb2"))],
                advances: vec![(5_000_000, 800_000)],
                max_adv: 1,
                max_chans: 3,
                max_inflight: 3,
                max_sends: 4,
                ..Knobs::default()
            };
            let with = if cb.is_some() { "a" } else { "no" };
            explore(rep, &Cfg { name: format!("settling, {name}, {with} callback"), root: World::new(Params::default()), depth: if deep { 10 } else { 8 }, gen: &|w| gen(&k, w), probe: &settle_all, mon: &never_stuck });
        }
    }
    // many packets in flight, settled in every order
    let many = if deep { 9 } else { 6 };
    for o in [opts_a(), opts_u()] {
        for cb in [None, Some(addr("cb1"))] {
            let Some(w0) = packets::opened(o.clone(), "cosmos1ica0", cb.clone()) else { continue };
            let mut w = w0;
            for i in 0..many {
                let (n, r) = step(&w, &exec(&w.ghost.owner, if i % 2 == 0 { send(vec![], vec![q; i + 1]) } else { send1() }));
                if r.accepted {
                    w = n;
                }
            }
            let k = Knobs { insts: vec![], acks: vec![AckK::Good, AckK::Error], timeouts: true, close_confirm: true, creates: vec![None], max_chans: 2, max_sends: 0, ..Knobs::default() };
            explore(rep, &Cfg { name: format!("{many} packets in flight, {:?}, callback {}", o.eff_order(), cb.is_some()), root: w, depth: many + 1, gen: &|w| gen(&k, w), probe: &none, mon: &never_stuck });
        }
    }
    wide::everything(rep, deep, if deep { 7 } else { 6 }, true, &settle_all, &never_stuck);
    wide::arguments(rep, deep, &never_stuck);
}

// ---------------------------------------------------------------------------------------------
// C26

#[derive(Debug, PartialEq)]
enum May {
    Propose,
    Close,
    Send,
    CallBack,
}

#[allow(deprecated)]
fn nothing_else(w: &World, a: &Act, r: &Rec, _: &World) -> Result<(), String> {
    for c in r.calls.iter().filter(|c| c.ok) {
        let may = match (c.entry, a) {
            ("instantiate", _) => Some(May::Propose),
            ("execute", Act::Exec { req, .. } | Act::Interrupted { req, .. }) => match req {
                Req::Create(_) => Some(May::Propose),
                Req::Close => Some(May::Close),
                Req::Send { .. } => Some(May::Send),
                _ => None,
            },
            ("open_ack" | "ack" | "timeout", _) if w.ghost.cb.is_some() => Some(May::CallBack),
            _ => None,
        };
        let n = usize::from(may.is_some());
        chk(c.msgs.len() == n, || format!("{}: {} message(s) emitted, expected {n}: {:?}", c.entry, c.msgs.len(), c.msgs.iter().map(|m| &m.msg).collect::<Vec<_>>()))?;
        for m in &c.msgs {
            let is = match &m.msg {
                CosmosMsg::Stargate { type_url, .. } if type_url == "/ibc.core.channel.v1.MsgChannelOpenInit" => Some(May::Propose),
                CosmosMsg::Ibc(cosmwasm_std::IbcMsg::CloseChannel { channel_id }) if w.ghost.tracked.is_some_and(|t| w.chans[t].id == *channel_id) => Some(May::Close),
                CosmosMsg::Ibc(cosmwasm_std::IbcMsg::SendPacket { channel_id, .. }) if w.ghost.tracked.is_some_and(|t| w.chans[t].id == *channel_id) => Some(May::Send),
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, funds, .. }) if Some(contract_addr) == w.ghost.cb.as_ref() && funds.is_empty() => Some(May::CallBack),
                _ => None,
            };
            chk(is == may, || format!("{}: emitted {:?}, expected {may:?}", c.entry, m.msg))?;
        }
    }
    Ok(())
}

/// Every shape of request with funds attached, by the owner and by others, and deliveries nobody asked for.
fn with_funds(w: &World) -> Vec<Act> {
    if !w.inst {
        return vec![];
    }
    let q = cases::query_id("balance");
    let m = cases::msg_id("bank_send");
    let mut from = vec![w.ghost.owner.clone(), addr("stranger"), contract_addr()];
    from.extend(w.ghost.pending.clone());
    from.extend(w.ghost.cb.clone());
    from.sort();
    from.dedup();
    let reqs = [
        Req::Create(None),
        Req::Create(Some(opts_b())),
        Req::Close,
        send1(),
        send(vec![], vec![]),
        send(vec![m, m], vec![q]),
        send(vec![], vec![q, q]),
        Req::SetCb(None),
        Req::SetCb(Some(addr("cb2"))),
        Req::Transfer { to: addr("heir"), exp: None },
        Req::Accept,
        Req::Renounce,
    ];
    let mut v = vec![];
    for from in &from {
        for req in &reqs {
            for funds in [vec![], vec![("stake".to_string(), 7u128)], vec![("atom".to_string(), 1), ("stake".to_string(), u128::MAX)]] {
                v.push(Act::Exec { from: from.clone(), funds, req: req.clone(), cb_ok: true });
            }
        }
    }
    for version in ["0.0.1", "0.7.9", "99.0.0"] {
        v.push(Act::MigrateFrom { contract: "crates.io:cw-ica-controller".into(), version: version.into(), json_encoding: false });
    }
    let data = br#"{"type":1,"data":"","memo":""}"#.to_vec();
    v.push(Act::Recv { port: port(), ch: w.ghost.tracked.map_or("channel-0".into(), |t| w.chans[t].id.clone()), data });
    for id in [0, 1, 2, u64::MAX] {
        for ok in [true, false] {
            v.push(Act::Reply { id, ok, data: Some(pb::enc(&pb::msg([pb::u(1, 5)]))) });
        }
    }
    v
}

pub fn c26(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration; in every reached state twelve requests by up to five senders with three amounts of funds attached, migrations, an incoming packet and replies nobody asked for; instantiation with and without funds; every argument of the owner's requests in representative states".into());
    let k = everything();
    for (name, funds) in [("no funds", vec![]), ("funds at instantiation", vec![("stake".to_string(), 5u128)]), ("two coins at instantiation", vec![("atom".to_string(), 1), ("stake".to_string(), u128::MAX)])] {
        explore(rep, &Cfg { name: name.into(), root: World::new(Params { inst_funds: funds, ..Params::default() }), depth: if deep { 6 } else { 5 }, gen: &|w| gen(&k, w), probe: &with_funds, mon: &nothing_else });
    }
    // histories of funded requests
    let funded = |w: &World| {
        let mut v = gen(&k, w);
        for a in &mut v {
            if let Act::Exec { funds, .. } = a {
                *funds = vec![("stake".into(), 7)];
            }
        }
        v
    };
    explore(rep, &Cfg { name: "funded requests".into(), root: World::new(Params { inst_funds: vec![("stake".into(), 5)], ..Params::default() }), depth: if deep { 7 } else { 6 }, gen: &funded, probe: &none, mon: &nothing_else });
    wide::everything(rep, deep, if deep { 7 } else { 6 }, true, &none, &nothing_else);
    wide::arguments(rep, deep, &nothing_else);
}

// ---------------------------------------------------------------------------------------------
// C27

/// Rewrites what names the other chain's channels, sequence numbers, times and heights.
struct Rename {
    chans: Vec<(String, String)>,
    seqs: Vec<(String, String)>,
    time: [u64; 2],
    height: [u64; 2],
}

impl Rename {
    fn new(a: &World, b: &World) -> Self {
        let ids = |w: &World| -> Vec<String> { (0..w.p.chan_names.len()).map(|i| w.p.chan_names[i].clone()).collect() };
        let mut seqs = vec![];
        for (x, y) in a.p.seq_base.iter().zip(&b.p.seq_base).filter(|(x, y)| x != y) {
            seqs.extend((0..64).map(|k| (y.wrapping_add(k).to_string(), x.wrapping_add(k).to_string())));
        }
        Rename { chans: ids(b).into_iter().zip(ids(a)).collect(), seqs, time: [b.p.t0, a.p.t0], height: [b.p.h0, a.p.h0] }
    }
    fn token(&self, t: &str, out: &mut String) {
        let shift = |[from, to]: [u64; 2], span: u64| t.parse::<u64>().ok().filter(|n| from != to && *n >= from && *n - from < span).map(|n| (n - from).wrapping_add(to).to_string());
        let r = self
            .chans
            .iter()
            .chain(&self.seqs)
            .find(|(f, _)| f == t)
            .map(|(_, x)| x.clone())
            .or_else(|| shift(self.time, 10_000_000_000_000_000))
            .or_else(|| shift(self.height, 1000));
        out.push_str(r.as_deref().unwrap_or(t));
    }
    fn text(&self, s: &str) -> String {
        let mut out = String::new();
        let mut tok = String::new();
        for c in s.chars() {
            if c.is_ascii_alphanumeric() || c == '-' {
                tok.push(c);
            } else {
                self.token(&tok, &mut out);
                tok.clear();
                out.push(c);
            }
        }
        self.token(&tok, &mut out);
        out
    }
}

/// Everything observable about a step, with contract calls decoded.
fn seen(r: &Rec, n: &World) -> Vec<String> {
    let mut v = vec![format!("accepted: {}", r.accepted)];
    for c in &r.calls {
        v.push(format!("{} {}", c.entry, c.ok));
        if !c.ok {
            continue;
        }
        for m in &c.msgs {
            let body = match &m.msg {
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => format!("call {contract_addr} {} {funds:?}", String::from_utf8_lossy(msg)),
                other => format!("{other:?}"),
            };
            v.push(format!("message {} {:?} {:?} {body}", m.id, m.reply_on, m.gas_limit));
        }
        v.push(format!("attributes {:?}", c.attrs.iter().map(|a| (&a.key, &a.value)).collect::<Vec<_>>()));
        for e in &c.events {
            v.push(format!("event {} {:?}", e.ty, e.attributes.iter().map(|a| (&a.key, &a.value)).collect::<Vec<_>>()));
        }
        v.push(format!("data {:?} {:?}", c.data, c.version));
    }
    for (q, x) in [("channel", n.q_channel()), ("state", n.q_state()), ("ownership", n.q_owner())] {
        v.push(format!("{q} {}", x.map_or("none".into(), |x| x.to_string())));
    }
    v
}

fn same_elsewhere(w: &World, a: &Act, r: &Rec, n: &World) -> Result<(), String> {
    let Some(t) = &w.twin else { return Ok(()) };
    let b = mirrored(w, t, a);
    let (tn, tr) = step(t, &b);
    chk(r.accepted == tr.accepted, || format!("{} here ({}), {} on the other chain ({})", if r.accepted { "accepted" } else { "refused" }, r.err, if tr.accepted { "accepted" } else { "refused" }, tr.err))?;
    let ren = Rename::new(w, t);
    let (here, there) = (seen(r, n), seen(&tr, &tn));
    chk(here.len() == there.len(), || format!("{} observations here, {} on the other chain: {here:?} / {there:?}", here.len(), there.len()))?;
    for (x, y) in here.iter().zip(&there) {
        let y = ren.text(y);
        chk(*x == y, || format!("here: {x}; on the other chain: {y}"))?;
    }
    Ok(())
}

/// Channel names that occur in nothing else.
fn here() -> Params {
    Params { chan_names: ["channel-301", "channel-3013", "channel-3", "channel-33013", "channel-1301"].map(String::from).to_vec(), ..Params::default() }
}

fn elsewhere() -> Vec<(&'static str, Params)> {
    let d = here;
    let names = |v: &[&str]| v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    vec![
        ("no transaction index", Params { tx_index: None, ..d() }),
        ("another chain id", Params { chain_id: "x".into(), tx_index: Some(0), ..d() }),
        ("a late date", Params { t0: 4_000_000_000_000_000_000, h0: 987_654_321, tx_index: Some(u32::MAX), ..d() }),
        ("an early date", Params { t0: 1_500_000_000_999_999_999, h0: 4_294_967_290, chain_id: "osmosis-1".into(), ..d() }),
        ("huge heights", Params { h0: 18_446_744_073_709_540_000, ..d() }),
        ("channels named in another order", Params { chan_names: here().chan_names.into_iter().rev().collect(), ..d() }),
        ("large channel numbers", Params { chan_names: names(&["channel-4294967295", "channel-4294967296", "channel-18446744073709551614", "channel-99999", "channel-70707"]), ..d() }),
        ("sequences around 2^32", Params { seq_base: vec![4_294_967_294; 12], ..d() }),
        ("sequences around 2^16", Params { seq_base: vec![65_534; 12], ..d() }),
        ("large sequences", Params { seq_base: vec![9_223_372_036_854_775_806, 18_446_744_073_709_551_000, 9_007_199_254_740_991, 1_000_000_007], ..d() }),
    ]
}

pub fn c27(rep: &mut Report, deep: bool) {
    rep.bounds.push("self-composition: all histories of transactions up to the depth of each exploration, each executed on two chains that differ in transaction index, chain id, date, height, channel names or sequence numbers (ten pairs); every result, message, callback, event and answer compared after renaming".into());
    if deep {
        crate::engine::EXTEND.store(8_000, std::sync::atomic::Ordering::Relaxed);
    }
    let k = everything();
    for (name, p) in elsewhere() {
        let root = World::new(Params { mirror: Some(Box::new(p)), ..here() });
        explore(rep, &Cfg { name: name.into(), root, depth: if deep { 6 } else { 5 }, gen: &|w| gen(&k, w), probe: &none, mon: &same_elsewhere });
    }
    let q = cases::query_id("balance");
    let m = cases::msg_id("bank_send");
    // fewer kinds of steps, deeper
    let k = Knobs {
        insts: vec![inst(opts_a(), Some(addr("cb1"))), inst(opts_u(), None)],
        creates: vec![None],
        close: true,
        close_confirm: true,
        sends: vec![send(vec![m], vec![q])],
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        transfers: vec![(addr("heir"), Some(Exp::Height(1002))), (addr("heir"), Some(Exp::Time(Params::default().t0 + 6_000_000_000)))],
        accepts: vec![addr("heir")],
        advances: vec![(6, 1)],
        max_adv: 2,
        max_chans: 2,
        max_inflight: 1,
        max_sends: 2,
        ..Knobs::default()
    };
    for (name, p) in elsewhere() {
        let root = World::new(Params { mirror: Some(Box::new(p)), ..here() });
        explore(rep, &Cfg { name: format!("deeper, {name}"), root, depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &same_elsewhere });
    }
    // every argument of the owner's requests, on an established channel
    let reqs = wide::requests();
    let mut pairs = vec![];
    for (name, p) in elsewhere() {
        for o in [opts_a(), opts_u()] {
            let mut w = World::new(Params { mirror: Some(Box::new(p.clone())), ..here() });
            for a in [inst(o.clone(), Some(addr("cb1"))), Act::OpenAck { ch: 0, version: Meta::good("connection-0", "connection-1", "cosmos1ica0").text(), cpty_chan: "channel-40".into(), cb_ok: true }] {
                w = step(&w, &a).0;
            }
            pairs.push((name, w));
        }
    }
    enumerate(rep, "every argument, on every pair of chains", reqs.len(), |i| {
        let mut calls = 0;
        if matches!(&reqs[i], Req::Transfer { exp: Some(_), .. }) {
            return Ok(0); // absolute: another request on another chain
        }
        if matches!(&reqs[i], Req::Send { timeout: Some(t), .. } if *t > 1_000_000) {
            return Ok(0); // whether it can be represented depends on the date
        }
        for (name, w) in &pairs {
            let a = exec(&w.ghost.owner, reqs[i].clone());
            let (n, r) = step(w, &a);
            same_elsewhere(w, &a, &r, &n).map_err(|e| (e, json!({"chains": name, "action": a})))?;
            calls += 2;
        }
        Ok(calls)
    });
}
