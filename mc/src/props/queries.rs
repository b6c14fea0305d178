//! C13 .. C15: query results.

use super::*;
use crate::engine::{enumerate, explore, none, Cfg, Report};
use crate::props::packets::opened;

/// The query result in the acknowledgement callback of a step, if there was such a callback.
fn reported(r: &Rec) -> Result<Option<Option<Json>>, String> {
    let h = r.head().ok_or("no call")?;
    let cbs = callbacks(&h.msgs.iter().collect::<Vec<_>>());
    match cbs.as_slice() {
        [] => Ok(None),
        [c] => {
            let b = &c.msg["receive_ica_callback"]["on_acknowledgement_packet_callback"];
            chk(b.is_object(), || format!("not an acknowledgement callback: {}", c.msg))?;
            Ok(Some(b.get("query_result").cloned()))
        }
        _ => Err("several callbacks".into()),
    }
}

fn replies() -> Vec<Act> {
    let mut v = vec![];
    let seq1 = pb::enc(&pb::msg([pb::u(1, 1)]));
    for id in (0..=16).chain([u64::MAX, u64::from(u32::MAX), 100, 1000]) {
        for data in [None, Some(vec![]), Some(seq1.clone())] {
            v.push(Act::Reply { id, ok: true, data });
        }
        v.push(Act::Reply { id, ok: false, data: None });
    }
    v
}

/// A request whose own call succeeds, followed by a reply it did not ask for.
fn interrupted(w: &World, reqs: &[Req]) -> Vec<Act> {
    let seq1 = pb::enc(&pb::msg([pb::u(1, 1)]));
    let mut v = vec![];
    for r in reqs {
        for off in [1u64, 2, 3, 7, 99, 1000, 1 << 32, u64::MAX - 1] {
            for (ok, data) in [(true, Some(seq1.clone())), (true, None), (false, None)] {
                v.push(Act::Interrupted { from: w.ghost.owner.clone(), req: r.clone(), off, ok, data });
            }
        }
    }
    v
}

pub fn c13(rep: &mut Report, deep: bool) {
    rep.bounds.push("up to 3 packets in flight (5 request shapes) over up to 3 channels, all interleavings of sends, success/error acks, timeouts, closes, reopening; channel names and sequence numbers chosen to collide under truncation or concatenation (1/257, 1/2^32+1, channel-1 & 11 / channel-11 & 1); unsolicited replies with 21 ids in every state".into());
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| match a {
        Act::Ack { ch, seq, ack, cb_ok, .. } => {
            let p = &w.chans[*ch].packets[seq];
            if !cb_ok {
                return Ok(());
            }
            chk(r.accepted, || format!("an honest acknowledgement was refused: {}", r.err))?;
            if let Some(got) = reported(r)? {
                let want = want_query_result(p, ack);
                same_query_result(&want, got.as_ref()).map_err(|e| format!("packet {seq} on {}: {e}", w.chans[*ch].id))?;
            }
            Ok(())
        }
        Act::Interrupted { .. } => chk(r.n_ok("reply") == 0, || "a reply the contract did not ask for was accepted".into()),
        Act::Reply { id, .. } => chk(!r.head_ok(), || format!("an unsolicited reply with id {id} was accepted")),
        _ => Ok(()),
    };
    let q = cases::query_id;
    let sg = cases::stargate_id("/cosmos.bank.v1beta1.Query/Balance");
    let shapes = [
        send1(),
        send(vec![], vec![q("balance")]),
        send(vec![cases::msg_id("bank_send")], vec![q("supply"), q("wasm_info")]),
        send(vec![], vec![sg, q("balance")]),
        send(vec![], vec![q("all_validators")]),
    ];
    let cb = Some(addr("cb1"));
    let base = |insts: Vec<Act>| Knobs {
        insts,
        creates: vec![None],
        sends: shapes.to_vec(),
        acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
        timeouts: true,
        max_chans: 1,
        max_inflight: 3,
        max_sends: 3,
        ..Knobs::default()
    };
    let names = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let probe = |w: &World| {
        let mut v = if w.inst { replies() } else { vec![] };
        if w.inst {
            v.extend(interrupted(w, &shapes[..3]));
        }
        v
    };
    // one unordered channel, every interleaving of three packets
    let k = base(vec![inst(opts_u(), cb.clone())]);
    explore(rep, &Cfg { name: "interleaving".into(), root: World::new(Params::default()), depth: 8, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    // reopening, ordered and unordered
    for (n, o) in [("ordered", opts_a()), ("unordered", opts_u())] {
        let k = Knobs { sends: shapes[..3].to_vec(), close: true, close_confirm: true, max_chans: 3, ..base(vec![inst(o, cb.clone())]) };
        explore(rep, &Cfg { name: format!("reopening {n}"), root: World::new(Params::default()), depth: if deep { 13 } else { 11 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
        let k = Knobs { sends: shapes[1..3].to_vec(), max_sends: 2, max_inflight: 2, acks: vec![AckK::Good], ..k };
        explore(rep, &Cfg { name: format!("reopening {n}, detached"), root: detached_root(), depth: if deep { 13 } else { 11 }, gen: &|w| gen_detached(&k, w), probe: &none, mon: &mon });
    }
    // names and sequences that could be confused
    let sets: Vec<(Vec<String>, Vec<u64>)> = vec![
        (names(&["channel-1", "channel-11", "channel-111"]), vec![11, 1, 1]),
        (names(&["channel-11", "channel-1"]), vec![1, 11]),
        (names(&["channel-0", "channel-1"]), vec![1, 1]),
        (names(&["channel-12", "channel-1"]), vec![3, 23]),
        (names(&["channel-1", "channel-10"]), vec![10, 1]),
        (names(&["channel-9", "channel-10"]), vec![u64::MAX - 3, 255]),
        (names(&["channel-255", "channel-256"]), vec![u64::from(u32::MAX), 1 << 32]),
    ];
    for (i, (chan_names, seq_base)) in sets.into_iter().enumerate() {
        let k = Knobs { insts: vec![inst(opts_u(), cb.clone()), inst(opts_a(), cb.clone())], sends: shapes[..3].to_vec(), close_confirm: true, max_chans: chan_names.len(), max_inflight: 2, max_sends: if deep { 3 } else { 2 }, ..base(vec![]) };
        explore(rep, &Cfg { name: format!("identifiers {i}"), root: World::new(Params { chan_names, seq_base, ..Params::default() }), depth: if deep { 13 } else { 11 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    }
    // sequence numbers far apart on one channel
    for by in [1u64, 9, 99, 127, 254, 255, 256, 65_535, 65_536, (1 << 32) - 2, (1 << 32) - 1, 1 << 32] {
        let k = Knobs { sends: shapes[..3].to_vec(), max_inflight: 2, max_sends: 2, acks: vec![AckK::Good], ..base(vec![inst(opts_u(), cb.clone())]) };
        let g = |w: &World| {
            let mut v = gen(&k, w);
            if w.ghost.sends == 1 && w.chans[0].next_seq < 3 {
                v.push(Act::Jump { ch: 0, by });
            }
            v
        };
        explore(rep, &Cfg { name: format!("sequence distance {by}"), root: World::new(Params::default()), depth: 8, gen: &g, probe: &none, mon: &mon });
    }
    // several requests whose delivery of callbacks changes meanwhile
    let k = Knobs { sends: shapes[..3].to_vec(), setcb: vec![None, Some(addr("cb2"))], cb_fail: true, migrate: true, max_inflight: 2, max_sends: 2, ..base(vec![inst(opts_u(), cb.clone()), inst(opts_u(), None)]) };
    explore(rep, &Cfg { name: "callback changes".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 6 }, true, &probe, &mon);
    // whatever the host answers: a result exactly for packets with queries, and only for one settled now
    let (ws, all) = (wide::in_flight(), wide::settlements());
    enumerate(rep, "every acknowledgement", all.len(), |i| {
        let mut calls = 0;
        for w in &ws {
            let (Some(ack), relayer) = all[i].clone() else { continue };
            let Some((ch, seq)) = w.chans.iter().enumerate().find_map(|(c, x)| x.packets.keys().next().map(|s| (c, *s))) else { continue };
            let asked = !w.chans[ch].packets[&seq].queries.is_empty();
            let error = serde_json::from_slice::<Json>(&ack).is_ok_and(|j| j.get("error").is_some());
            let a = Act::Ack { ch, seq, ack, relayer, cb_ok: true };
            let (_, r) = step(w, &a);
            calls += 1;
            if !r.accepted {
                continue;
            }
            let case = |e: String| (e, json!({"action": a, "queries": asked}));
            if let Some(got) = reported(&r).map_err(case)? {
                if got.is_some() != asked {
                    return Err(case(format!("the packet {} queries, but its callback carries the result {got:?}", if asked { "had" } else { "had no" })));
                }
                if error && got.is_some_and(|g| g.get("error").is_none()) {
                    return Err(case("an error acknowledgement yielded a success".into()));
                }
            }
        }
        Ok(calls)
    });
}

pub fn c14(rep: &mut Report, deep: bool) {
    rep.bounds.push("up to 3 packets with and without queries in flight over up to 3 channels, all interleavings of sends, acks, error acks, timeouts, closes, reopening, callback changes and failures; in every state without query packets in flight the raw storage is compared with that of a twin contract that never sent a packet".into());
    let mon = |_w: &World, a: &Act, _r: &Rec, n: &World| {
        let q: usize = n.chans.iter().map(|c| c.packets.values().filter(|p| !p.queries.is_empty()).count()).sum();
        if n.inst && q == 0 {
            let t = n.twin.as_ref().unwrap();
            if n.store != t.store {
                let extra: Vec<String> = n.store.0.iter().filter(|(k, v)| t.store.0.get(*k) != Some(*v)).map(|(k, v)| format!("{} = {}", String::from_utf8_lossy(k), String::from_utf8_lossy(v))).collect();
                let gone: Vec<String> = t.store.0.keys().filter(|k| !n.store.0.contains_key(*k)).map(|k| String::from_utf8_lossy(k).into_owned()).collect();
                return Err(format!("after {a:?} no packet with queries is in flight, but the stored data differs from that of a controller that never sent a packet: {extra:?} missing {gone:?}"));
            }
        }
        Ok(())
    };
    let q = cases::query_id("balance");
    let q2 = cases::query_id("supply");
    let cb = Some(addr("cb1"));
    let shapes = vec![send1(), send(vec![], vec![q]), send(vec![cases::msg_id("bank_send")], vec![q2, q, cases::stargate_id("/my.module.v1.Query/Thing")])];
    let root = |chan_names: Option<Vec<String>>, seq_base: Option<Vec<u64>>| {
        let d = Params::default();
        World::new(Params { twin: true, chan_names: chan_names.unwrap_or(d.chan_names.clone()), seq_base: seq_base.unwrap_or(d.seq_base.clone()), ..d })
    };
    for (n, o) in [("unordered", opts_u()), ("ordered", opts_a())] {
        let k = Knobs {
            insts: vec![inst(o.clone(), cb.clone()), inst(o, None)],
            creates: vec![None],
            sends: shapes.clone(),
            acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
            timeouts: true,
            close: true,
            close_confirm: true,
            cb_fail: true,
            max_chans: 3,
            max_inflight: 3,
            max_sends: 3,
            ..Knobs::default()
        };
        explore(rep, &Cfg { name: n.into(), root: root(None, None), depth: if deep { 12 } else { 10 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    }
    let k = Knobs {
        insts: vec![inst(opts_u(), cb.clone())],
        creates: vec![None, Some(opts_a())],
        sends: shapes[..2].to_vec(),
        acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
        timeouts: true,
        setcb: vec![None, Some(addr("cb2"))],
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        close: true,
        close_confirm: true,
        max_chans: 3,
        max_inflight: 2,
        max_sends: 2,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "with configuration changes".into(), root: root(None, None), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    // one channel, three in flight, large sequence numbers, sequence jumps
    for (i, base) in [1u64, 255, u64::from(u32::MAX), u64::MAX - 3].into_iter().enumerate() {
        let k = Knobs { insts: vec![inst(opts_u(), cb.clone())], sends: shapes.clone(), acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk], timeouts: true, max_chans: 1, max_inflight: 3, max_sends: 3, ..Knobs::default() };
        explore(rep, &Cfg { name: format!("sequence base {base}"), root: root(None, Some(vec![base])), depth: if i == 0 { 8 } else { 7 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    }
    for by in [254u64, 255, 256, 65_535, 65_536, (1 << 32) - 1, 1 << 32] {
        let k = Knobs { insts: vec![inst(opts_u(), cb.clone())], sends: shapes[..2].to_vec(), acks: vec![AckK::Good], timeouts: true, max_chans: 1, max_inflight: 2, max_sends: 2, ..Knobs::default() };
        let g = |w: &World| {
            let mut v = gen(&k, w);
            if w.ghost.sends == 1 && w.chans[0].next_seq < 3 {
                v.push(Act::Jump { ch: 0, by });
            }
            v
        };
        explore(rep, &Cfg { name: format!("sequence distance {by}"), root: root(None, None), depth: 8, gen: &g, probe: &none, mon: &mon });
    }
    wide::periodic(rep, &root(None, None), deep, &none, &mon);
    // every acknowledgement and timeout, every sequence number
    let mut worlds = vec![];
    for o in [opts_u(), opts_a()] {
        for cb in [None, Some(addr("cb1"))] {
            worlds.extend(opened(o.clone(), "cosmos1ica", cb));
        }
    }
    let settle = |w: &World, req: &Req, ack: Option<Vec<u8>>, relayer: &str| -> Result<(), String> {
        let (s, r) = step(w, &exec(&w.ghost.owner, req.clone()));
        let Some((ch, seq)) = r.sent.first().copied() else { return Ok(()) };
        let relayer = relayer.to_string();
        let closes = ack.is_none() && s.chans[ch].order == Ord_::Ordered;
        let a = match ack {
            Some(ack) => Act::Ack { ch, seq, ack, relayer, cb_ok: true },
            None => Act::Timeout { ch, seq, relayer, cb_ok: true },
        };
        let (n, r) = step(&s, &a);
        if !r.accepted {
            return chk(n.store == s.store, || format!("a refused {a:?} changed the stored data"));
        }
        if closes {
            // apart from the channel status: as after the timeout of a packet without queries
            let (s2, r2) = step(w, &exec(&w.ghost.owner, send1()));
            let Some((ch, seq)) = r2.sent.first().copied() else { return Ok(()) };
            let (n2, r2) = step(&s2, &Act::Timeout { ch, seq, relayer: addr("relayer"), cb_ok: true });
            return chk(!r2.accepted || n2.store == n.store, || format!("{a:?} settled the packet, but the stored data is not as after the timeout of a plain packet"));
        }
        let left: Vec<String> = n.store.0.iter().filter(|(k, v)| w.store.0.get(*k) != Some(*v)).map(|(k, v)| format!("{} = {}", String::from_utf8_lossy(k), String::from_utf8_lossy(v))).collect();
        chk(n.store == w.store, || format!("{a:?} settled the packet, but the stored data is not as before it was sent: {left:?}"))
    };
    let all = wide::settlements();
    enumerate(rep, "every acknowledgement and timeout", all.len() * shapes.len(), |i| {
        let (ack, relayer) = &all[i / shapes.len()];
        for w in &worlds {
            settle(w, &shapes[i % shapes.len()], ack.clone(), relayer).map_err(|e| (e, json!({"request": shapes[i % shapes.len()].json()})))?;
        }
        Ok(worlds.len() as u64)
    });
    let seqs = crate::alpha::u64s();
    let kinds = [AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk];
    enumerate(rep, "every sequence number", seqs.len() * shapes.len(), |i| {
        let req = &shapes[i % shapes.len()];
        let mut calls = 0;
        for w in &worlds {
            let mut w = w.clone();
            w.chans[0].next_seq = seqs[i / shapes.len()].max(1);
            w.chans[0].next_ack = w.chans[0].next_seq;
            let (s, r) = step(&w, &exec(&w.ghost.owner, req.clone()));
            let Some((ch, seq)) = r.sent.first().copied() else { continue };
            let p = &s.chans[ch].packets[&seq];
            for k in kinds.into_iter().filter(|k| k.applies(p)) {
                settle(&w, req, Some(ack_for(p, k)), "relayer").map_err(|e| (e, json!({"sequence": seq, "request": req.json()})))?;
                calls += 1;
            }
            settle(&w, req, None, "relayer").map_err(|e| (e, json!({"sequence": seq, "request": req.json()})))?;
            calls += 1;
        }
        Ok(calls)
    });
    // every query and many of them
    let qs = cases::queries();
    let bank = cases::msg_id("bank_send");
    let mut reqs: Vec<Req> = (0..qs.len() as u32).filter(|i| qs[*i as usize].expect.is_some()).map(|i| send(vec![], vec![i])).collect();
    for n in cases::list_lengths().into_iter().filter(|n| *n <= 1100) {
        reqs.push(send(vec![], vec![q; n]));
        reqs.push(send(vec![bank; n], vec![q]));
    }
    enumerate(rep, "every query", reqs.len(), |i| {
        let mut calls = 0;
        for w in &worlds {
            let (s, r) = step(w, &exec(&w.ghost.owner, reqs[i].clone()));
            let Some((ch, seq)) = r.sent.first().copied() else { continue };
            let p = &s.chans[ch].packets[&seq];
            for ack in [Some(ack_for(p, AckK::Error)), None] {
                settle(w, &reqs[i], ack, "relayer").map_err(|e| (e, json!({"request": reqs[i].json()})))?;
                calls += 1;
            }
        }
        Ok(calls)
    });
}

/// Sends a packet and delivers this acknowledgement; returns whether it was accepted and the
/// reported query result.
fn deliver(w: &World, msgs: &[u32], queries: &[u32], ack: &[u8]) -> Option<(bool, Option<Json>, String)> {
    let (w, r) = step(w, &exec(&w.ghost.owner, send(msgs.to_vec(), queries.to_vec())));
    if !r.accepted || r.sent.len() != 1 {
        return None;
    }
    let (ch, seq) = r.sent[0];
    let (_, r) = step(&w, &Act::Ack { ch, seq, ack: ack.to_vec(), relayer: addr("relayer"), cb_ok: true });
    let q = if r.accepted { reported(&r).ok().flatten().flatten() } else { None };
    Some((r.accepted, q.filter(|x| !x.is_null()), r.err))
}

fn is_success(q: &Option<Json>) -> bool {
    q.as_ref().is_some_and(|q| q.get("success").is_some())
}
fn is_error(q: &Option<Json>) -> bool {
    q.as_ref().is_some_and(|q| q.get("error").is_some_and(Json::is_string) && q.get("success").is_none())
}

pub fn c15(rep: &mut Report, deep: bool) {
    let rs = cases::resps();
    let worlds: Vec<World> = [opened(opts_a(), "cosmos1ica", Some(addr("cb1"))), opened(opts_u(), "cosmos1ica", Some(addr("cb1")))].into_iter().flatten().collect();
    let Some(w) = worlds.first() else { return };
    let bank = cases::msg_id("bank_send");
    rep.bounds.push(format!("{} responses (boundary product of every field of every response type, absent values, malformed amounts, wrong wire types, junk) for the typed queries and every raw query; all pairs and triples of query kinds; a junk response at every position; every number of responses from 0 to n+2 for n up to 4; every truncation of every core response and of the whole acknowledgement; 0..3 preceding message responses; 6 heights", rs.len()));
    let heights = [4242u64, 0, 1, 127, 128, u64::MAX];
    // single typed responses
    enumerate(rep, "single responses", rs.len() * 4, |i| {
        let c = &rs[i / 4];
        let nm = i % 4;
        let h = heights[(i / 4) % heights.len()];
        let qs = [cases::query_id(c.kind)];
        let ack = ack_result(&result_bytes(nm, Some((h, &[c.bytes.clone()]))));
        let Some((acc, q, err)) = deliver(w, &vec![bank; nm], &qs, &ack) else { return Ok(0) };
        let case = || json!({"kind": c.kind, "response_bytes": c.bytes, "preceding_messages": nm, "reported": q, "accepted": acc, "error": err});
        let want = |j: &Json| json!({"success": {"height": h, "responses": [j]}});
        let ok = match &c.want {
            Want::Json(j) => acc && q.as_ref() == Some(&want(j)),
            Want::Error => acc && is_error(&q),
            Want::JsonOrError(j) => acc && (is_error(&q) || q.as_ref() == Some(&want(j))),
        };
        if !ok {
            let e = match &c.want {
                Want::Json(j) => want(j).to_string(),
                Want::Error => "an error".into(),
                Want::JsonOrError(j) => format!("{} or an error", want(j)),
            };
            return Err((format!("the {} response was reported as {q:?} (accepted: {acc} {err}), expected {e}", c.kind), case()));
        }
        Ok(2)
    });
    // every query case with a good response (arguments do not matter, raw paths do)
    let qsup: Vec<u32> = (0..cases::queries().len() as u32).filter(|q| cases::queries()[*q as usize].expect.is_some()).collect();
    enumerate(rep, "every query", qsup.len(), |i| {
        let (b, j) = canned(qsup[i]);
        let ack = ack_result(&result_bytes(0, Some((7, &[b]))));
        let Some((_, q, err)) = deliver(w, &[], &[qsup[i]], &ack) else { return Ok(0) };
        let want = json!({"success": {"height": 7, "responses": [j]}});
        if q.as_ref() != Some(&want) {
            return Err((format!("reported {q:?} {err}, expected {want}"), json!({"query": cases::queries()[qsup[i] as usize].json})));
        }
        Ok(2)
    });
    // raw responses are returned byte for byte
    let sgs: Vec<u32> = ["/my.module.v1.Query/Thing", "/cosmos.bank.v1beta1.Query/Balance", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmos.staking.v1beta1.Query/Params", "", "no/slash"].iter().map(|p| cases::stargate_id(p)).collect();
    enumerate(rep, "raw responses", sgs.len() * rs.len(), |i| {
        let s = sgs[i % sgs.len()];
        let b = &rs[i / sgs.len()].bytes;
        let ack = ack_result(&result_bytes(0, Some((7, &[b.clone()]))));
        let Some((_, q, err)) = deliver(w, &[], &[s], &ack) else { return Ok(0) };
        let path = &cases::queries()[s as usize].expect.as_ref().unwrap().0;
        let want = json!({"success": {"height": 7, "responses": [{"stargate": {"data": b64(b), "path": path}}]}});
        if q.as_ref() != Some(&want) {
            return Err((format!("reported {q:?} {err}, expected {want}"), json!({"path": path, "response_bytes": b})));
        }
        Ok(2)
    });
    // sequences
    let mut core: Vec<u32> = qsup.iter().copied().filter(|q| cases::queries()[*q as usize].core).collect();
    core.push(cases::stargate_id("/cosmos.bank.v1beta1.Query/Balance"));
    let n = core.len();
    for len in 2..=3u32 {
        if len == 3 && !deep {
            // triples over a smaller alphabet in the quick tier
        }
        let al: Vec<u32> = if len == 3 && !deep { core.iter().copied().step_by(2).collect() } else { core.clone() };
        let m = al.len();
        enumerate(rep, &format!("sequences of {len}"), m.pow(len) * (1 + len as usize), |i| {
            let bad = i % (1 + len as usize);
            let mut x = i / (1 + len as usize);
            let qs: Vec<u32> = (0..len)
                .map(|_| {
                    let y = al[x % m];
                    x /= m;
                    y
                })
                .collect();
            let mut rsp: Vec<(Vec<u8>, Json)> = qs.iter().map(|q| canned(*q)).collect();
            let mut err = false;
            if bad > 0 {
                // an undecodable response to a typed query
                if cases::queries()[qs[bad - 1] as usize].kind == "stargate" {
                    return Ok(0);
                }
                rsp[bad - 1].0 = vec![0x0a, 0x7f, 1];
                err = true;
            }
            let bytes: Vec<Vec<u8>> = rsp.iter().map(|r| r.0.clone()).collect();
            let ack = ack_result(&result_bytes(1, Some((9, &bytes))));
            let Some((acc, q, e)) = deliver(w, &[bank], &qs, &ack) else { return Ok(0) };
            let js: Vec<&Json> = rsp.iter().map(|r| &r.1).collect();
            let want = json!({"success": {"height": 9, "responses": js}});
            let ok = if err { acc && is_error(&q) } else { q.as_ref() == Some(&want) };
            if !ok {
                return Err((format!("reported {q:?} {e}, expected {}", if err { "an error".into() } else { want.to_string() }), json!({"queries": qs.iter().map(|q| &cases::queries()[*q as usize].json).collect::<Vec<_>>(), "undecodable": bad})));
            }
            Ok(2)
        });
    }
    // all kinds in one packet, every rotation, junk at every position
    enumerate(rep, "all kinds together", n * (n + 1), |i| {
        let (rot, bad) = (i / (n + 1), i % (n + 1));
        let qs: Vec<u32> = (0..n).map(|j| core[(j + rot) % n]).collect();
        let mut rsp: Vec<(Vec<u8>, Json)> = qs.iter().map(|q| canned(*q)).collect();
        if bad < n {
            if cases::queries()[qs[bad] as usize].kind == "stargate" {
                return Ok(0);
            }
            rsp[bad].0 = vec![0xff];
        }
        let bytes: Vec<Vec<u8>> = rsp.iter().map(|r| r.0.clone()).collect();
        let ack = ack_result(&result_bytes(2, Some((u64::MAX, &bytes))));
        let Some((acc, q, e)) = deliver(w, &[bank, bank], &qs, &ack) else { return Ok(0) };
        let js: Vec<&Json> = rsp.iter().map(|r| &r.1).collect();
        let want = json!({"success": {"height": u64::MAX, "responses": js}});
        let ok = if bad < n { acc && is_error(&q) } else { q.as_ref() == Some(&want) };
        if !ok {
            return Err((format!("reported {q:?} {e}"), json!({"rotation": rot, "undecodable": bad, "expected": want})));
        }
        Ok(2)
    });
    // wrong number of responses
    enumerate(rep, "number of responses", n * 5 * 7, |i| {
        let (k, nq, nr) = (i / 35, i / 7 % 5, i % 7);
        if nq == 0 || nr == nq || nr > nq + 2 {
            return Ok(0);
        }
        let qs = vec![core[k]; nq];
        let bytes = vec![canned(core[k]).0; nr];
        let ack = ack_result(&result_bytes(0, Some((9, &bytes))));
        let Some((acc, q, e)) = deliver(w, &[], &qs, &ack) else { return Ok(0) };
        if !(acc && is_error(&q)) {
            return Err((format!("{nr} responses for {nq} queries were reported as {q:?} {e}"), json!({"query": cases::queries()[core[k] as usize].json, "queries": nq, "responses": nr})));
        }
        Ok(2)
    });
    // truncations of each response
    let trunc: Vec<(u32, Vec<u8>)> = core
        .iter()
        .filter(|q| cases::queries()[**q as usize].kind != "stargate")
        .flat_map(|q| {
            let k = cases::queries()[*q as usize].kind;
            let pick = |r: &&cases::RespCase| r.kind == k && matches!(r.want, Want::Json(_)) && (r.core || deep) && r.bytes.len() < 300;
            rs.iter().filter(pick).flat_map(|r| (0..r.bytes.len()).map(|l| (*q, r.bytes[..l].to_vec())).collect::<Vec<_>>()).collect::<Vec<_>>()
        })
        .filter(|(_, b)| pb::dec(b).is_none())
        .collect();
    enumerate(rep, "truncated responses", trunc.len(), |i| {
        let (q, b) = &trunc[i];
        let ack = ack_result(&result_bytes(0, Some((9, &[b.clone()]))));
        let Some((acc, r, e)) = deliver(w, &[], &[*q], &ack) else { return Ok(0) };
        if !(acc && is_error(&r)) {
            return Err((format!("a truncated response was reported as {r:?} {e}"), json!({"query": cases::queries()[*q as usize].json, "response_bytes": b})));
        }
        Ok(2)
    });
    // truncations of the whole result: never a success
    let whole: Vec<(u32, Vec<u8>)> = core
        .iter()
        .filter(|q| cases::queries()[**q as usize].kind != "stargate")
        .flat_map(|q| {
            let full = result_bytes(1, Some((9, &[canned(*q).0, canned(*q).0])));
            (0..full.len()).map(|l| (*q, full[..l].to_vec())).collect::<Vec<_>>()
        })
        .collect();
    enumerate(rep, "truncated results", whole.len(), |i| {
        let (q, b) = &whole[i];
        let Some((acc, r, _)) = deliver(w, &[bank], &[*q, *q], &ack_result(b)) else { return Ok(0) };
        if is_success(&r) || (acc && !is_error(&r)) {
            return Err((format!("a truncated result was reported as {r:?}"), json!({"query": cases::queries()[*q as usize].json, "result_bytes": b})));
        }
        Ok(2)
    });
    // error acknowledgements
    enumerate(rep, "error acknowledgements", n * 3, |i| {
        let e = [ERR_TEXT, "", "ü\"\\"][i % 3];
        let Some((acc, r, err)) = deliver(w, &[], &[core[i / 3]], &ack_error(e)) else { return Ok(0) };
        if !(acc && is_error(&r)) {
            return Err((format!("an error acknowledgement was reported as {r:?} {err}"), json!({"query": cases::queries()[core[i / 3] as usize].json})));
        }
        Ok(2)
    });
    // in every state
    let k = Knobs {
        insts: vec![inst(opts_u(), Some(addr("cb1"))), inst(opts_a(), Some(addr("cb1")))],
        creates: vec![None],
        sends: vec![send(vec![bank], core.clone()), send(vec![], vec![core[0]])],
        acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short, AckK::Junk],
        timeouts: true,
        close: true,
        close_confirm: true,
        migrate: true,
        max_chans: 2,
        max_inflight: 2,
        max_sends: 2,
        ..Knobs::default()
    };
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| match a {
        Act::Ack { ch, seq, ack, cb_ok: true, .. } => {
            chk(r.accepted, || format!("an honest acknowledgement was refused: {}", r.err))?;
            let want = want_query_result(&w.chans[*ch].packets[seq], ack);
            match reported(r)? {
                Some(got) => same_query_result(&want, got.as_ref()),
                None => Ok(()),
            }
        }
        _ => Ok(()),
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &none, &mon);
}
