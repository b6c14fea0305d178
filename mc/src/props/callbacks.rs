//! C16 .. C18: callbacks and acknowledgement events.

use super::*;
use crate::alpha;
use crate::engine::{enumerate, explore, none, Cfg, Report};
use crate::props::packets::opened;

/// The callback an accepted step must make (without the query result).
pub fn expected(w: &World, a: &Act) -> Option<Json> {
    match a {
        Act::OpenAck { ch, version, cpty_chan, .. } => {
            let mut c = w.chans[*ch].clone();
            c.cpty_chan = cpty_chan.clone();
            c.version = version.clone();
            Some(json!({"on_channel_open_ack_callback": {"channel": c.json(), "ica_address": version_address(version), "tx_encoding": "proto3"}}))
        }
        Act::Ack { ch, seq, ack, relayer, .. } => {
            let ack: Json = serde_json::from_slice(ack).ok()?;
            Some(json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": ack, "original_packet": w.chans[*ch].packet_json(*seq), "relayer": relayer}}))
        }
        Act::Timeout { ch, seq, relayer, .. } => Some(json!({"on_timeout_packet_callback": {"original_packet": w.chans[*ch].packet_json(*seq), "relayer": relayer}})),
        _ => None,
    }
}

fn judge_callback(w: &World, a: &Act, r: &Rec) -> Result<(), String> {
    let all = r.all_msgs();
    let Some(want) = expected(w, a) else {
        let c = callbacks(&all);
        return chk(c.is_empty(), || format!("a callback is made by {a:?}: {}", c[0].msg));
    };
    if !r.head_ok() {
        return Ok(());
    }
    let Some(cb) = &w.ghost.cb else {
        return chk(all.is_empty(), || format!("no callback address is configured but {} message(s) are emitted: {:?}", all.len(), all[0].msg));
    };
    chk(all.len() == 1, || format!("{} messages emitted instead of one callback", all.len()))?;
    let cbs = callbacks(&all);
    chk(cbs.len() == 1, || format!("the message is not a contract call: {:?}", all[0].msg))?;
    let c = &cbs[0];
    chk(c.to == *cb, || format!("the callback goes to {}, configured is {cb}", c.to))?;
    chk(c.funds == 0, || "the callback carries funds".into())?;
    chk(c.gas.is_none(), || format!("the callback has a gas limit of {:?}", c.gas))?;
    let mut got = c.msg.clone();
    chk(got.as_object().is_some_and(|o| o.len() == 1), || format!("callback {got}"))?;
    let mut got = got["receive_ica_callback"].take();
    if let Some(o) = got.get_mut("on_acknowledgement_packet_callback").and_then(Json::as_object_mut) {
        o.remove("query_result");
    }
    chk(got == want, || format!("callback {got}, expected {want}"))
}

pub fn relayers() -> Vec<String> {
    vec![addr("relayer"), addr("owner"), contract_addr(), addr("cb1"), "osmo1anyrelayer".into(), String::new()]
}

/// Packet contents and timeouts as they may come back.
pub fn packets() -> Vec<Pkt> {
    let mut v = vec![];
    for data in [vec![], vec![0], b"{\"type\":1,\"data\":[1,2],\"memo\":\"x\"}".to_vec(), (0..=255u8).collect(), vec![0xff; 700]] {
        for (ts, block) in [(1, None), (u64::MAX, None), (1_700_000_000_123_456_789, None), (0, Some((0, 1))), (0, Some((u64::MAX, u64::MAX))), (77, Some((3, 9)))] {
            v.push(Pkt { data: data.clone(), ts, block, msgs: vec![0], queries: vec![], nth: 0 });
        }
    }
    v
}

pub fn acks() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for b in [vec![], vec![1], vec![1, 2], vec![0xff; 3], result_bytes(2, None), (0..=255u8).collect()] {
        v.push(ack_result(&b));
    }
    for e in ["", "x", ERR_TEXT, "quote\" back\\ tab\t nl\n del\u{7f} é → 🚀", "{\"result\":\"AQ==\"}", "error", " lead and trail "] {
        v.push(ack_error(e));
    }
    v.push(ack_error(&"long ".repeat(500)));
    v
}

pub fn with_packet(w: &World, seq: u64, p: Pkt) -> World {
    let mut w = w.clone();
    let c = &mut w.chans[0];
    c.packets.insert(seq, p);
    c.next_ack = seq;
    c.next_seq = seq.wrapping_add(1);
    w
}

/// One element of a step at a time through its whole alphabet.
pub fn one_at_a_time() -> Vec<(Pkt, u64, Option<Vec<u8>>, String)> {
    let pkt = |data: Vec<u8>, ts: u64, block: Option<(u64, u64)>| Pkt { data, ts, block, msgs: vec![0], queries: vec![], nth: 0 };
    let usual = || pkt(b"{\"type\":1,\"data\":\"CgA=\",\"memo\":\"m\"}".to_vec(), 1_700_000_600_000_000_000, None);
    let (res, err) = (ack_result(&[1, 2, 3]), ack_error("e"));
    let mut v = vec![];
    let rel = || addr("relayer");
    for b in alpha::blobs() {
        v.push((usual(), 1, Some(ack_result(&b)), rel()));
        for a in [Some(res.clone()), Some(err.clone()), None] {
            v.push((pkt(b.clone(), 77, None), 1, a, rel()));
        }
    }
    for t in alpha::strings() {
        v.push((usual(), 1, Some(ack_error(&t)), rel()));
        v.push((usual(), 1, Some(ack_result(t.as_bytes())), rel()));
        for a in [Some(res.clone()), Some(err.clone()), None] {
            v.push((usual(), 1, a, t.clone()));
        }
    }
    for n in alpha::u64s() {
        for a in [Some(res.clone()), Some(err.clone()), None] {
            v.push((usual(), n, a.clone(), rel()));
            for (ts, block) in [(n, None), (n, Some((1, 1))), (5, Some((n, 3))), (0, Some((3, n)))] {
                v.push((pkt(vec![1], ts, block), 1, a.clone(), rel()));
            }
        }
    }
    v
}

pub fn c16(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration over instantiation with/without callback address, handshakes, sends, acks, error acks, timeouts, closes, reopening, callback changes, ownership transfer, migration; plus the full product of 30 packets x 14 acknowledgements x 6 relayers x 4 sequences x 3 configurations, and of 6 accounts x 4 channel options x 4 counterparty ids at the completion".into());
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| judge_callback(w, a, r);
    let q = cases::query_id("balance");
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1"))), inst(opts_a(), Some(addr("cb2")))],
        creates: vec![None, Some(opts_b())],
        close: true,
        close_confirm: true,
        sends: vec![send1(), send(vec![], vec![q])],
        acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
        timeouts: true,
        cb_fail: true,
        setcb: vec![None, Some(addr("cb1")), Some(addr("cb2"))],
        max_chans: 3,
        max_inflight: 2,
        max_sends: 3,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    // ownership changes and migration in between, long reopening chains
    let k = Knobs {
        insts: vec![inst(opts_u(), Some(addr("cb1"))), inst(opts_a(), Some(addr("owner"))), inst(opts_b(), Some(contract_addr()))],
        creates: vec![None],
        close: true,
        sends: vec![send(vec![cases::msg_id("bank_send")], vec![q])],
        acks: vec![AckK::Good],
        timeouts: true,
        setcb: vec![Some(addr("cb2"))],
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        max_chans: 3,
        max_inflight: 1,
        max_sends: 2,
        addrs: 2,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "ownership and migration".into(), root: World::new(Params::default()), depth: if deep { 12 } else { 10 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    explore(rep, &Cfg { name: "detached".into(), root: detached_root(), depth: if deep { 11 } else { 9 }, gen: &|w| gen_detached(&k, w), probe: &none, mon: &mon });

    let (ps, aks, rl) = (packets(), acks(), relayers());
    let worlds: Vec<World> = [opened(opts_u(), "cosmos1ica", Some(addr("cb1"))), opened(opts_a(), "cosmos1ica", Some(addr("cb2"))), opened(opts_b(), "cosmos1ica", None)].into_iter().flatten().collect();
    let seqs = [1u64, 256, (1 << 53) + 1, u64::MAX];
    let n = ps.len() * rl.len() * seqs.len();
    enumerate(rep, "packets", n, |i| {
        let (p, rest) = (&ps[i % ps.len()], i / ps.len());
        let (relayer, seq) = (&rl[rest % rl.len()], seqs[rest / rl.len()]);
        let mut calls = 0;
        for w in &worlds {
            let w = with_packet(w, seq, p.clone());
            let mut todo: Vec<Act> = aks.iter().map(|ack| Act::Ack { ch: 0, seq, ack: ack.clone(), relayer: relayer.clone(), cb_ok: true }).collect();
            todo.push(Act::Timeout { ch: 0, seq, relayer: relayer.clone(), cb_ok: true });
            for a in todo {
                let (_, r) = step(&w, &a);
                calls += 1;
                judge_callback(&w, &a, &r).map_err(|e| (e, json!({"packet": w.chans[0].packet_json(seq), "action": a})))?;
            }
        }
        Ok(calls)
    });
    let wide = one_at_a_time();
    enumerate(rep, "one at a time", wide.len(), |i| {
        let (p, seq, ack, relayer) = &wide[i];
        for w in &worlds {
            let w = with_packet(w, *seq, p.clone());
            let a = match ack {
                Some(ack) => Act::Ack { ch: 0, seq: *seq, ack: ack.clone(), relayer: relayer.clone(), cb_ok: true },
                None => Act::Timeout { ch: 0, seq: *seq, relayer: relayer.clone(), cb_ok: true },
            };
            let (_, r) = step(&w, &a);
            chk(r.head_ok(), || format!("the step is refused: {}", r.err)).and_then(|()| judge_callback(&w, &a, &r)).map_err(|e| (e, json!({"packet": w.chans[0].packet_json(*seq), "action": a})))?;
        }
        Ok(worlds.len() as u64)
    });
    let icas = ["c", "cosmos1ica", "OSMO1UPPER", "0x1f0", "123", &"z9".repeat(64)];
    let os = [opts_a(), opts_u(), opts_b(), opts_c()];
    let cps = ["channel-0", "channel-7", "channel-18446744073709551615", ""];
    enumerate(rep, "completions", icas.len() * os.len() * cps.len(), |i| {
        let (ica, o, cp) = (icas[i % icas.len()], &os[i / icas.len() % os.len()], cps[i / icas.len() / os.len()]);
        for cb in [None, Some(addr("cb1")), Some(addr("cb2"))] {
            let (w, r) = step(&World::new(Params::default()), &inst(o.clone(), cb));
            if !r.accepted {
                continue;
            }
            let a = Act::OpenAck { ch: 0, version: host_version(&w.chans[0], ica), cpty_chan: cp.into(), cb_ok: true };
            let (_, r) = step(&w, &a);
            judge_callback(&w, &a, &r).map_err(|e| (e, json!(a)))?;
        }
        Ok(6)
    });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &none, &mon);
    wide::arguments(rep, deep, &mon);
}

fn with_cb(a: &Act, ok: bool) -> Act {
    let mut a = a.clone();
    match &mut a {
        Act::OpenAck { cb_ok, .. } | Act::Ack { cb_ok, .. } | Act::Timeout { cb_ok, .. } => *cb_ok = ok,
        _ => {}
    }
    a
}

pub fn c17(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration in which every handshake completion, acknowledgement and timeout may meet a failing callback contract at any moment (repeatedly), followed by retry, by clearing and by replacing the callback address".into());
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let step_kind = matches!(a, Act::OpenAck { .. } | Act::Ack { .. } | Act::Timeout { .. });
        if !step_kind || with_cb(a, true) == *a {
            return Ok(());
        }
        let (good, gr) = step(w, &with_cb(a, true));
        if !gr.accepted {
            return Ok(());
        }
        if w.ghost.cb.is_none() {
            return chk(r.accepted, || format!("no callback address is configured, yet a failing contract stops the step: {}", r.err));
        }
        chk(!r.accepted, || format!("the callback failed but {a:?} went through"))?;
        chk(n.store == w.store && n.chans == w.chans, || "the failed step left traces".into())?;
        // retry
        let (again, ar) = step(n, &with_cb(a, true));
        chk(ar.accepted && again.key() == good.key(), || format!("the retried step differs: {}", ar.err))?;
        // cure
        let (c, cr) = step(n, &exec(&n.ghost.owner, Req::SetCb(None)));
        chk(cr.accepted, || format!("the callback address cannot be cleared: {}", cr.err))?;
        let (c2, cr) = step(&c, a);
        chk(cr.accepted, || format!("the step fails although the callback address was cleared: {}", cr.err))?;
        chk(c2.chans == good.chans && c2.q_channel() == good.q_channel(), || "the step after clearing the callback address has another outcome".into())?;
        let (c, cr) = step(n, &exec(&n.ghost.owner, Req::SetCb(Some(addr("cure")))));
        chk(cr.accepted, || format!("the callback address cannot be replaced: {}", cr.err))?;
        let (_, cr) = step(&c, a);
        chk(!cr.accepted, || "a failing replacement contract is ignored".into())?;
        let (c2, cr) = step(&c, &with_cb(a, true));
        chk(cr.accepted, || format!("the step fails although the callback address was replaced: {}", cr.err))?;
        chk(c2.chans == good.chans && c2.q_channel() == good.q_channel(), || "the step after replacing the callback address has another outcome".into())
    };
    let q = cases::query_id("balance");
    for (name, o) in [("ordered", opts_a()), ("unordered", opts_u())] {
        let k = Knobs {
            insts: vec![inst(o.clone(), Some(addr("cb1"))), inst(o, None)],
            creates: vec![None],
            close: true,
            close_confirm: true,
            sends: vec![send1(), send(vec![cases::msg_id("bank_send")], vec![q])],
            acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
            timeouts: true,
            setcb: vec![None, Some(addr("cb2"))],
            migrate: true,
            max_chans: 3,
            max_inflight: 3,
            max_sends: 4,
            ..Knobs::default()
        };
        // failing callbacks are tried in every state; they lead nowhere new (checked by the monitor)
        let probe = |w: &World| gen(&k, w).iter().filter(|a| matches!(a, Act::OpenAck { .. } | Act::Ack { .. } | Act::Timeout { .. })).map(|a| with_cb(a, false)).collect();
        explore(rep, &Cfg { name: name.into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    }
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &none, &mon);
}

fn judge_event(w: &World, ch: usize, seq: u64, ack: &[u8], r: &Rec) -> Result<(), String> {
    let h = r.head().ok_or("no call")?;
    if !h.ok {
        return Ok(());
    }
    let ev: Vec<_> = h.events.iter().filter(|e| e.ty == "acknowledge_packet").collect();
    chk(ev.len() == 1, || format!("{} acknowledgement events instead of one: {:?}", ev.len(), h.events))?;
    let v: Json = serde_json::from_slice(ack).map_err(|_| "an undecodable acknowledgement was accepted".to_string())?;
    let mut want = vec![("packet_sequence", seq.to_string()), ("packet_src_port", w.chans[ch].port.clone()), ("packet_src_channel", w.chans[ch].id.clone())];
    let absent = match (v["result"].as_str(), v["error"].as_str()) {
        (Some(x), None) => {
            want.push(("packet_ack_base64", x.into()));
            "error"
        }
        (None, Some(x)) => {
            want.push(("error", x.into()));
            "packet_ack_base64"
        }
        _ => return Err("an undecodable acknowledgement was accepted".into()),
    };
    let get = |k: &str| ev[0].attributes.iter().filter(|a| a.key == k).map(|a| a.value.clone()).collect::<Vec<_>>();
    for (k, x) in want {
        let g = get(k);
        chk(g.len() == 1 && g[0] == x, || format!("acknowledgement event has {k} = {g:?}, expected {x:?}"))?;
    }
    chk(get(absent).is_empty(), || format!("acknowledgement event has both an outcome and {absent}"))
}

fn malformed() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", " ", "{", "}", "{}", "[]", "null", "1", "\"\"", "\"result\"", "\"error\"", "{\"result\":1}", "{\"result\":null}", "{\"result\":[1,2]}", "{\"result\":{}}",
        "{\"result\":\"!!\"}", "{\"result\":\"A\"}", "{\"result\":\"AQ=\u{e9}\"}", "{\"error\":1}", "{\"error\":null}", "{\"error\":[]}", "{\"error\":{}}", "{\"error\":true}",
        "{\"ok\":\"AQ==\"}", "{\"Result\":\"AQ==\"}", "{\"Error\":\"x\"}", "{\"err\":\"x\"}", "{\"result\":\"AQ==\",\"error\":\"x\"}", "{\"error\":\"x\",\"result\":\"AQ==\"}",
        "{\"error\":\"x\"}x", "{\"error\":\"x\"}{}", "{\"result\":\"AQ==\"},", "{'error':'x'}", "{error:\"x\"}", "[{\"error\":\"x\"}]", "{\"result\":\"AQ==\"", "{\"error\":\"\\u00\"}", "{\"error\":\"\n",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![0xff, 0xfe]);
    v.push(vec![0x0a, 1, 0]);
    v.push(vec![0]);
    v.push(b"{\"error\":\"\xff\"}".to_vec());
    // every truncation of a valid one
    for a in [ack_result(&[1, 2, 3, 4]), ack_error("some error")] {
        for n in 0..a.len() {
            v.push(a[..n].to_vec());
        }
    }
    v
}

pub fn c18(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration with/without callback address, with/without queries, several channels and sequences; in every state with a packet in flight 14 valid and 79 malformed acknowledgements (incl. every truncation of a valid one) are delivered".into());
    let bad = malformed();
    let good = acks();
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let Act::Ack { ch, seq, ack, cb_ok, .. } = a else { return Ok(()) };
        if !w.chans.get(*ch).is_some_and(|c| c.packets.contains_key(seq)) {
            return Ok(());
        }
        if bad.contains(ack) {
            chk(!r.head_ok(), || format!("an undecodable acknowledgement was accepted: {}", String::from_utf8_lossy(ack)))?;
            return chk(n.store == w.store, || "an undecodable acknowledgement changed the stored data".into());
        }
        let p = &w.chans[*ch].packets[seq];
        if *cb_ok && (p.queries.is_empty() || *ack == ack_for(p, AckK::Good) || serde_json::from_slice::<Json>(ack).is_ok_and(|v| v["error"].is_string())) {
            chk(r.head_ok(), || format!("an acknowledgement was refused: {}", r.err))?;
        }
        judge_event(w, *ch, *seq, ack, r)
    };
    let probe = |w: &World| {
        let mut v = vec![];
        for (i, c) in w.chans.iter().enumerate() {
            for seq in c.packets.keys() {
                if c.st == St::Open && (c.order == Ord_::Unordered || *seq == c.next_ack) {
                    for ack in bad.iter().chain(&good) {
                        v.push(Act::Ack { ch: i, seq: *seq, ack: ack.clone(), relayer: addr("relayer"), cb_ok: true });
                    }
                }
            }
        }
        v
    };
    let q = cases::query_id("balance");
    let names: Vec<String> = ["channel-0", "channel-18446744073709551615", "channel-7"].iter().map(|s| s.to_string()).collect();
    for (i, (chan_names, seq_base)) in [(Params::default().chan_names, vec![1; 12]), (names, vec![u64::MAX - 4, 1 << 40, 9])].into_iter().enumerate() {
        let k = Knobs {
            insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
            creates: vec![None],
            close_confirm: true,
            sends: vec![send1(), send(vec![], vec![q]), send(vec![cases::msg_id("bank_send")], vec![q, cases::query_id("supply")])],
            acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
            timeouts: true,
            setcb: vec![None, Some(addr("cb2"))],
            max_chans: 3,
            max_inflight: 2,
            max_sends: 3,
            ..Knobs::default()
        };
        explore(rep, &Cfg { name: format!("lifecycle, identifiers {i}"), root: World::new(Params { chan_names, seq_base, ..Params::default() }), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    }
    let wide = one_at_a_time();
    enumerate(rep, "one at a time", wide.len(), |i| {
        let (p, seq, ack, relayer) = &wide[i];
        let Some(ack) = ack else { return Ok(0) };
        for cb in [Some(addr("cb1")), None] {
            if let Some(w) = opened(opts_u(), "cosmos1ica", cb) {
                let w = with_packet(&w, *seq, p.clone());
                let a = Act::Ack { ch: 0, seq: *seq, ack: ack.clone(), relayer: relayer.clone(), cb_ok: true };
                let (n, r) = step(&w, &a);
                mon(&w, &a, &r, &n).map_err(|e| (e, json!(a)))?;
            }
        }
        Ok(2)
    });
    // packets with unusual contents
    let ps = packets();
    let worlds: Vec<World> = [opened(opts_u(), "cosmos1ica", Some(addr("cb1"))), opened(opts_a(), "cosmos1ica", None)].into_iter().flatten().collect();
    enumerate(rep, "packets", ps.len() * good.len(), |i| {
        let (p, ack) = (&ps[i % ps.len()], &good[i / ps.len()]);
        for w in &worlds {
            for seq in [1u64, 300, u64::MAX] {
                let w = with_packet(w, seq, p.clone());
                let a = Act::Ack { ch: 0, seq, ack: ack.clone(), relayer: addr("relayer"), cb_ok: true };
                let (n, r) = step(&w, &a);
                mon(&w, &a, &r, &n).map_err(|e| (e, json!(a)))?;
            }
        }
        Ok(6)
    });
    wide::everything(rep, deep, if deep { 8 } else { 6 }, true, &probe, &mon);
}
