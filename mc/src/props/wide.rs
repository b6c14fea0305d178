//! The whole alphabet at once, and wide alphabets of arguments in some states, for any monitor.

use super::*;
use crate::alpha;
use crate::engine::{enumerate, explore, Cfg, GenFn, MonFn, Report};

/// Every kind of step, shorter histories than the explorations made for one property.
pub fn everything(rep: &mut Report, deep: bool, depth: usize, detached: bool, probe: GenFn, mon: MonFn) {
    let k = super::everything();
    periodic(rep, &World::new(Params::default()), deep, probe, mon);
    explore(rep, &Cfg { name: "everything".into(), root: World::new(Params::default()), depth, gen: &|w| gen(&k, w), probe, mon });
    if detached {
        explore(rep, &Cfg { name: "everything, detached".into(), root: detached_root(), depth, gen: &|w| gen_detached(&k, w), probe, mon });
    }
}

/// Kinds of steps of long histories; each is resolved to a concrete step in the state it is taken in.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Create(bool),
    Complete(bool),
    Close,
    Lost,
    /// the channel is lost, requested and completed again
    Reopen,
    Send(usize),
    /// an acknowledgement (or a timeout) of the oldest or the newest packet in flight
    Ack(AckK, bool),
    Timeout(bool),
    AckFails,
    SetCb(Option<&'static str>),
    /// an ownership transfer is proposed, and accepted
    Offer,
    Accept,
    HandOver,
    Migrate,
    Wait,
}

const KINDS: [Kind; 24] = [
    Kind::Create(false),
    Kind::Create(true),
    Kind::Complete(false),
    Kind::Complete(true),
    Kind::Close,
    Kind::Lost,
    Kind::Reopen,
    Kind::Send(0),
    Kind::Send(1),
    Kind::Send(2),
    Kind::Ack(AckK::Good, false),
    Kind::Ack(AckK::Good, true),
    Kind::Ack(AckK::Error, false),
    Kind::Ack(AckK::Short, true),
    Kind::Timeout(false),
    Kind::Timeout(true),
    Kind::AckFails,
    Kind::SetCb(None),
    Kind::SetCb(Some("cb2")),
    Kind::Offer,
    Kind::Accept,
    Kind::HandOver,
    Kind::Migrate,
    Kind::Wait,
];

fn resolve(k: Kind, w: &World, sends: &[Req]) -> Option<Act> {
    let own = |r: Req| Some(exec(&w.ghost.owner, r));
    let settle = |newest: bool, ack: bool| {
        let mut all: Vec<(usize, u64, u32)> = vec![];
        for (i, c) in w.chans.iter().enumerate().filter(|(_, c)| c.st != St::Init) {
            for (seq, p) in &c.packets {
                if !ack || c.st == St::Open && (c.order == Ord_::Unordered || *seq == c.next_ack) {
                    all.push((i, *seq, p.nth));
                }
            }
        }
        let it = all.into_iter();
        if newest { it.max_by_key(|x| (x.0, x.1)) } else { it.min_by_key(|x| (x.0, x.1)) }
    };
    let relayer = || addr("relayer");
    match k {
        Kind::Create(false) => own(Req::Create(None)),
        Kind::Create(true) => own(Req::Create(Some(opts_b()))),
        Kind::Complete(same) => {
            let ch = w.chans.iter().rposition(|c| c.st == St::Init)?;
            Some(Act::OpenAck { ch, version: host_version(&w.chans[ch], &ica_name(ch, usize::from(same))), cpty_chan: w.cpty_id(ch), cb_ok: true })
        }
        Kind::Close => own(Req::Close),
        Kind::Lost => w.ghost.tracked.filter(|t| w.chans[*t].st == St::Open).map(|ch| Act::CloseConfirm { ch }),
        Kind::Send(i) => own(sends[i].clone()),
        Kind::Ack(k, newest) => {
            let (ch, seq, _) = settle(newest, true)?;
            let p = &w.chans[ch].packets[&seq];
            k.applies(p).then(|| Act::Ack { ch, seq, ack: ack_for(p, k), relayer: relayer(), cb_ok: true })
        }
        Kind::AckFails => {
            let (ch, seq, _) = settle(false, true)?;
            w.ghost.cb.as_ref()?;
            Some(Act::Ack { ch, seq, ack: ack_for(&w.chans[ch].packets[&seq], AckK::Good), relayer: relayer(), cb_ok: false })
        }
        Kind::Timeout(newest) => settle(newest, false).map(|(ch, seq, _)| Act::Timeout { ch, seq, relayer: relayer(), cb_ok: true }),
        Kind::SetCb(a) => own(Req::SetCb(a.map(addr))),
        Kind::Offer => own(Req::Transfer { to: addr(if w.ghost.owner == addr("heir") { "owner" } else { "heir" }), exp: Some(Exp::Height(w.height + 1)) }),
        Kind::Accept => w.ghost.pending.as_ref().map(|p| exec(p, Req::Accept)),
        Kind::Migrate => Some(Act::MigrateFrom { contract: "crates.io:cw-ica-controller".into(), version: "0.1.0".into(), json_encoding: false }),
        Kind::Wait => Some(Act::Advance { secs: 6, blocks: 1 }),
        Kind::Reopen | Kind::HandOver => None,
    }
}

/// Long histories: all words over `KINDS` up to a length repeated many times, and all sequences of
/// long blocks of one kind. The probes are applied in the last state of each history.
pub fn periodic(rep: &mut Report, root: &World, deep: bool, probe: GenFn, mon: MonFn) {
    let sends = super::everything().sends;
    let n = KINDS.len();
    // (number of words, length of a word, repetitions of the word, repetitions of each of its kinds)
    let blocks = [(1, 140, 1), (2, 48, 1), (2, 1, 130), (3, if deep { 40 } else { 9 }, 1), (3, 1, if deep { 34 } else { 9 }), (4, if deep { 9 } else { 0 }, 1)];
    for (start, first) in [("ordered", inst(opts_a(), None)), ("unordered", inst(opts_u(), Some(addr("cb1"))))] {
        let (w0, r) = step(root, &first);
        if !r.accepted {
            continue;
        }
        let Some(a) = resolve(Kind::Complete(false), &w0, &sends) else { continue };
        let (w0, _) = step(&w0, &a);
        for (len, times, each) in blocks {
            if times == 0 {
                continue;
            }
            enumerate(rep, &format!("long histories, {start}: words of {len} x {times} x {each}"), n.pow(len), |i| {
                let word: Vec<Kind> = (0..len).map(|d| KINDS[i / n.pow(d) % n]).collect();
                let mut w = w0.clone();
                let mut calls = 0;
                let go = |w: &mut World, k: Kind, calls: &mut u64| -> Result<(), (String, Json)> {
                    let Some(a) = resolve(k, w, &sends) else { return Ok(()) };
                    let (m, r) = step(w, &a);
                    *calls += 1;
                    mon(w, &a, &r, &m).map_err(|e| (e, json!({"start": start, "word": format!("{word:?}"), "step": *calls, "action": a})))?;
                    *w = m;
                    Ok(())
                };
                for _ in 0..times {
                    for k in &word {
                        for _ in 0..each {
                            match k {
                                Kind::Reopen => {
                                    for k in [Kind::Lost, Kind::Create(false), Kind::Complete(false)] {
                                        go(&mut w, k, &mut calls)?;
                                    }
                                }
                                Kind::HandOver => {
                                    for k in [Kind::Offer, Kind::Accept] {
                                        go(&mut w, k, &mut calls)?;
                                    }
                                }
                                k => go(&mut w, *k, &mut calls)?,
                            }
                        }
                    }
                }
                if len < 3 || deep && len == 3 {
                    for a in probe(&w) {
                        let (m, r) = step(&w, &a);
                        calls += 1;
                        mon(&w, &a, &r, &m).map_err(|e| (e, json!({"start": start, "word": format!("{word:?}"), "repetitions": times, "each": each, "probe": a})))?;
                    }
                }
                Ok(calls)
            });
        }
    }
}

/// Some states in which wide alphabets of requests are tried.
pub fn situations() -> Vec<World> {
    let go = |w: World, acts: &[&dyn Fn(&World) -> Option<Act>]| -> Option<World> {
        let mut w = w;
        for a in acts {
            let (n, r) = step(&w, &a(&w)?);
            if !r.accepted {
                return None;
            }
            w = n;
        }
        Some(w)
    };
    let send_q = |w: &World| Some(exec(&w.ghost.owner, send(vec![], vec![cases::query_id("balance")])));
    let offer = |w: &World| Some(exec(&w.ghost.owner, Req::Transfer { to: addr("heir"), exp: Some(Exp::Height(w.height + 1)) }));
    let late = |_: &World| Some(Act::Advance { secs: 6, blocks: 2 });
    let accept = |_: &World| Some(exec(&addr("heir"), Req::Accept));
    let lost = |w: &World| Some(Act::CloseConfirm { ch: w.ghost.tracked? });
    let close = |w: &World| Some(exec(&w.ghost.owner, Req::Close));
    let create = |w: &World| Some(exec(&w.ghost.owner, Req::Create(Some(opts_b()))));
    let mut v = vec![];
    for o in [opts_a(), opts_u()] {
        for cb in [None, Some(addr("cb1"))] {
            let (w, r) = step(&World::new(Params::default()), &Act::Inst { from: addr("creator"), owner: Some(owner()), opts: o.clone(), cb: cb.clone() });
            if r.accepted {
                v.push(go(w, &[&offer]));
            }
            let Some(w) = packets::opened(o.clone(), "cosmos1ica0", cb) else { continue };
            v.push(Some(w.clone()));
            v.push(go(w.clone(), &[&send_q, &offer, &late]));
            v.push(go(w.clone(), &[&offer, &accept, &send_q]));
            v.push(go(w.clone(), &[&lost]));
            v.push(go(w.clone(), &[&offer, &accept, &offer, &close]));
            v.push(go(w.clone(), &[&lost, &create]));
        }
    }
    v.into_iter().flatten().collect()
}

/// One request of every shape, each argument through its alphabet.
pub fn requests() -> Vec<Req> {
    let m = cases::msg_id("bank_send");
    let q = cases::query_id("balance");
    let shapes = [(vec![m], vec![]), (vec![], vec![]), (vec![m, m], vec![q]), (vec![], vec![q, q]), (vec![cases::msg_id("stargate"), m], vec![])];
    let mut v = vec![];
    for memo in packets::memos() {
        for timeout in packets::timeouts(Params::default().t0) {
            for (ms, qs) in &shapes {
                v.push(Req::Send { msgs: ms.clone(), queries: qs.clone(), memo: memo.clone(), timeout });
            }
        }
    }
    for n in alpha::u64s() {
        v.push(Req::Send { msgs: vec![m], queries: vec![], memo: None, timeout: Some(n) });
        for e in [Exp::Height(n), Exp::Time(n)] {
            v.push(Req::Transfer { to: addr("stranger"), exp: Some(e) });
        }
    }
    for n in 0..40 {
        v.push(send(vec![m; n], vec![]));
        v.push(send(vec![m; n], vec![q; n]));
        v.push(send(vec![], vec![q; n]));
    }
    v.extend((0..cases::msgs().len() as u32).map(|i| send(vec![i], vec![])));
    v.extend((0..cases::queries().len() as u32).map(|i| send(vec![], vec![i])));
    for t in alpha::strings().into_iter().filter(|t| t.len() < 5000) {
        v.push(Req::Send { msgs: vec![m], queries: vec![], memo: Some(t.clone()), timeout: None });
        v.push(Req::SetCb(Some(t.clone())));
        v.push(Req::Transfer { to: t.clone(), exp: None });
        for o in [opts_a(), opts_u(), opts_b()] {
            v.push(Req::Create(Some(Opts { conn: t.clone(), ..o.clone() })));
            v.push(Req::Create(Some(Opts { cconn: t.clone(), ..o.clone() })));
            v.push(Req::Create(Some(Opts { port: Some(t.clone()), ..o.clone() })));
        }
    }
    for p in ["owner", "heir", "heir2", "cb1", "cb2", "creator", "stranger"].map(addr).into_iter().chain([contract_addr(), port()]) {
        v.push(Req::SetCb(Some(p.clone())));
        for exp in [None, Some(Exp::Never), Some(Exp::Height(0)), Some(Exp::Height(u64::MAX)), Some(Exp::Time(0)), Some(Exp::Time(u64::MAX))] {
            v.push(Req::Transfer { to: p.clone(), exp });
        }
    }
    v.extend([Req::Create(None), Req::Close, Req::SetCb(None), Req::Renounce, Req::Accept]);
    v
}

/// States with one packet in flight.
pub fn in_flight() -> Vec<World> {
    let q = cases::query_id("balance");
    let mut v = vec![];
    for o in [opts_a(), opts_u()] {
        for cb in [None, Some(addr("cb1"))] {
            let Some(w) = packets::opened(o.clone(), "cosmos1ica0", cb) else { continue };
            for req in [send1(), send(vec![], vec![q]), send(vec![cases::msg_id("bank_send")], vec![q, q])] {
                let (w, r) = step(&w, &exec(&w.ghost.owner, req));
                if r.accepted {
                    v.push(w);
                }
            }
        }
    }
    v
}

/// Every kind of acknowledgement (None: timeout) and relayer.
pub fn settlements() -> Vec<(Option<Vec<u8>>, String)> {
    let mut v: Vec<(Option<Vec<u8>>, String)> = callbacks::one_at_a_time().into_iter().map(|(_, _, a, r)| (a, r)).collect();
    v.extend(callbacks::acks().into_iter().map(|a| (Some(a), addr("relayer"))));
    v.extend(callbacks::relayers().into_iter().flat_map(|r| [(None, r.clone()), (Some(ack_result(&result_bytes(1, None))), r.clone()), (Some(ack_error("e")), r)]));
    v.sort();
    v.dedup();
    v
}

/// Requests of the owner, completions, acknowledgements and timeouts with each argument through its
/// whole alphabet.
pub fn arguments(rep: &mut Report, deep: bool, mon: MonFn) {
    let judge = |w: &World, a: Act, k: usize| {
        let (n, r) = step(w, &a);
        mon(w, &a, &r, &n).map_err(|e| (e, json!({"state": k, "action": a})))
    };
    let ws = situations();
    let reqs = requests();
    enumerate(rep, "every argument of the owner's requests", reqs.len(), |i| {
        let mut calls = 0;
        // the thousands of single messages and queries: every seventh state in the quick tier
        let many = matches!(&reqs[i], Req::Send { msgs, queries, memo: None, timeout: None } if msgs.len() + queries.len() == 1);
        for (k, w) in ws.iter().enumerate().filter(|(k, _)| deep || !many || k % 7 == i % 7) {
            judge(w, exec(&w.ghost.owner, reqs[i].clone()), k)?;
            calls += 1;
        }
        Ok(calls)
    });
    let ws = in_flight();
    let all = settlements();
    enumerate(rep, "every acknowledgement and timeout", all.len(), |i| {
        let mut calls = 0;
        for (k, w) in ws.iter().enumerate() {
            let (ack, relayer) = all[i].clone();
            let Some((ch, seq)) = w.chans.iter().enumerate().find_map(|(c, x)| x.packets.keys().next().map(|s| (c, *s))) else { continue };
            let a = match ack {
                Some(ack) => Act::Ack { ch, seq, ack, relayer, cb_ok: true },
                None => Act::Timeout { ch, seq, relayer, cb_ok: true },
            };
            judge(w, a, k)?;
            calls += 1;
        }
        Ok(calls)
    });
    // completions: first and later channels
    let mut ws = vec![];
    for o in [opts_a(), opts_u(), opts_b(), opts_c()] {
        for cb in [None, Some(addr("cb1"))] {
            ws.push(step(&World::new(Params::default()), &inst(o.clone(), cb)).0);
        }
        if let Some(w) = packets::opened(o.clone(), "cosmos1ica0", None) {
            let w = step(&w, &Act::CloseConfirm { ch: 0 }).0;
            ws.push(step(&w, &exec(&w.ghost.owner, Req::Create(Some(opts_c())))).0);
        }
    }
    let mut icas: Vec<String> = alpha::strings().into_iter().filter(|t| !t.is_empty() && t.len() <= 128 && t.bytes().all(|b| b.is_ascii_alphanumeric())).collect();
    icas.extend((1..=128).map(|n| "Az09".repeat(32)[..n].to_string()));
    icas.extend(["cosmos1ica0", "cosmos1ica1"].map(String::from));
    let ids: Vec<String> = alpha::u64s().iter().map(|n| format!("channel-{n}")).collect();
    enumerate(rep, "every account and counterparty channel", icas.len() + ids.len(), |i| {
        let mut calls = 0;
        for (k, w) in ws.iter().enumerate() {
            let Some(ch) = w.chans.iter().position(|c| c.st == St::Init) else { continue };
            let (ica, id) = if i < icas.len() { (icas[i].clone(), w.cpty_id(ch)) } else { ("cosmos1ica".to_string(), ids[i - icas.len()].clone()) };
            judge(w, Act::OpenAck { ch, version: host_version(&w.chans[ch], &ica), cpty_chan: id, cb_ok: true }, k)?;
            calls += 1;
        }
        Ok(calls)
    });
}
