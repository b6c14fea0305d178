//! C01 (owner-only), C02 (ownership), C22 (configuration).

use super::*;
use crate::alpha;
use crate::engine::{enumerate, explore, Cfg, Report};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Api, CanonicalAddr};

fn valid(a: &str) -> bool {
    MockApi::default().addr_validate(a).is_ok()
}

fn funds() -> Vec<(String, u128)> {
    vec![("stake".into(), 1)]
}

/// Everybody who might try something.
fn senders(w: &World) -> Vec<String> {
    let o = w.ghost.owner.clone();
    let mut v = vec![
        w.ghost.creator.clone(),
        addr("owner"),
        addr("heir"),
        addr("heir2"),
        addr("cb1"),
        addr("cb2"),
        contract_addr(),
        port(),
        addr("relayer"),
        addr("stranger"),
        o.to_uppercase(),
        format!("{o}a"),
        format!(" {o}"),
        o[..o.len() - 1].to_string(),
        String::new(),
        w.ghost.ica.clone(),
        "cosmos1ica0".into(),
    ];
    if let Some(p) = &w.ghost.pending {
        v.push(p.clone());
    }
    v.sort();
    v.dedup();
    v
}

fn requests(me: &str) -> Vec<Req> {
    let q = cases::query_id("balance");
    vec![
        Req::Create(None),
        Req::Create(Some(opts_a())),
        Req::Create(Some(opts_b())),
        Req::Create(Some(Opts::new("connection-0", "connection-1", Some("transfer"), None))),
        Req::Close,
        send(vec![], vec![]),
        send1(),
        send(vec![], vec![q]),
        send(vec![cases::msg_id("bank_send")], vec![q, q]),
        Req::Send { msgs: vec![cases::msg_id("stargate")], queries: vec![], memo: Some("m".into()), timeout: Some(60) },
        Req::SetCb(None),
        Req::SetCb(Some(addr("cb2"))),
        Req::SetCb(Some("x".into())),
        Req::Transfer { to: addr("stranger"), exp: None },
        Req::Transfer { to: me.to_string(), exp: Some(Exp::Never) },
        Req::Transfer { to: me.to_string(), exp: Some(Exp::Height(u64::MAX)) },
        Req::Accept,
        Req::Renounce,
    ]
}

pub fn c01(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration over the lifecycle alphabet; in every reached state every listed sender (up to 18) tries every listed request (18), with and without funds; in 28 states 6 senders try every request with each argument through its alphabet (all messages and queries of C11/C12, memos x timeouts x shapes, texts, numbers, addresses, expiries, funds)".into());
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let mut v = vec![];
        for s in senders(w) {
            for r in requests(&s) {
                for f in [vec![], funds()] {
                    v.push(Act::Exec { from: s.clone(), funds: f, req: r.clone(), cb_ok: true });
                }
            }
        }
        v
    };
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        if let Act::Exec { from, req, .. } = a {
            let allowed = match req {
                Req::Accept => w.ghost.pending.as_deref() == Some(from),
                Req::Renounce => false,
                _ => *from == w.ghost.owner,
            };
            if !allowed {
                chk(!r.head_ok(), || format!("{from} is not entitled to {req:?} (owner {}, proposed {:?}) but it was accepted", w.ghost.owner, w.ghost.pending))?;
                chk(n.store == w.store, || "a refused request changed the stored data".into())?;
            }
        }
        Ok(())
    };
    let insts = vec![
        inst(opts_a(), Some(addr("cb1"))),
        Act::Inst { from: addr("creator"), owner: None, opts: opts_u(), cb: None },
    ];
    let heirs = vec![addr("heir"), addr("heir2"), addr("owner"), addr("creator")];
    // ownership-heavy histories
    let k = Knobs {
        insts: insts.clone(),
        transfers: vec![(addr("heir"), None), (addr("heir2"), Some(Exp::Height(1001))), (addr("owner"), Some(Exp::Never))],
        accepts: heirs,
        advances: vec![(6, 1)],
        max_adv: 2,
        setcb: vec![None, Some(addr("cb2"))],
        max_chans: 1,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "ownership".into(), root: World::new(Params::default()), depth: if deep { 9 } else { 7 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    // channel-heavy histories
    let k = Knobs {
        insts,
        creates: vec![None, Some(opts_b())],
        close: true,
        close_confirm: true,
        sends: vec![send1(), send(vec![], vec![cases::query_id("balance")])],
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        max_chans: 2,
        max_inflight: 1,
        max_sends: 1,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 10 } else { 8 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 6 } else { 5 }, false, &probe, &mon);
    // wide alphabets of arguments and funds
    let ws = wide::situations();
    let reqs = wide::requests();
    let all_funds = [vec![], funds(), vec![("uatom".to_string(), u128::MAX)], vec![("stake".to_string(), 0)], vec![("stake".to_string(), 1), ("uatom".to_string(), 1000)]];
    enumerate(rep, "every argument", reqs.len(), |i| {
        let mut calls = 0;
        // the thousands of single messages and queries: every seventh state in the quick tier
        let many = matches!(&reqs[i], Req::Send { msgs, queries, memo: None, timeout: None } if msgs.len() + queries.len() == 1);
        for (k, w) in ws.iter().enumerate().filter(|(k, _)| deep || !many || k % 7 == i % 7) {
            for from in [addr("stranger"), addr("creator"), addr("heir"), addr("owner"), addr("cb1"), contract_addr()] {
                let act = Act::Exec { from, funds: all_funds[(i + k) % all_funds.len()].clone(), req: reqs[i].clone(), cb_ok: true };
                // the effects of rightful requests are judged elsewhere
                if matches!(&act, Act::Exec { from, .. } if *from == w.ghost.owner) {
                    continue;
                }
                let (n, r) = step(w, &act);
                mon(w, &act, &r, &n).map_err(|e| (e, json!({"state": k, "action": act})))?;
                calls += 1;
            }
        }
        Ok(calls)
    });
}

fn opt(x: &Option<String>) -> Json {
    x.as_ref().map_or(Json::Null, |s| json!(s))
}

fn ownership_json(g: &Ghost) -> Json {
    json!({"owner": g.owner, "pending_owner": opt(&g.pending), "pending_expiry": g.expiry.map_or(Json::Null, Exp::json)})
}

pub fn c02(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of ownership actions up to the depth of each exploration: 5 proposals x 5 expiries, acceptance and renunciation by everybody, block advances, channel traffic in a second configuration".into());
    let t = Params::default().t0;
    let h = Params::default().h0;
    let parties = ["owner", "heir", "heir2", "creator", "stranger"];
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        if let Act::Exec { from, req, .. } = a {
            match req {
                Req::Accept => {
                    let want = w.ghost.pending.as_deref() == Some(from) && !w.ghost.expiry.is_some_and(|e| e.expired(w));
                    chk(r.accepted == want, || {
                        format!("acceptance by {from} {} (proposed {:?}, expiry {:?}, height {}, time {})", if r.accepted { "succeeded" } else { "failed" }, w.ghost.pending, w.ghost.expiry, w.height, w.time)
                    })?;
                }
                Req::Renounce => chk(!r.head_ok(), || format!("renouncing by {from} was accepted"))?,
                Req::Transfer { to, exp } if *from == w.ghost.owner => {
                    let sane = !exp.is_some_and(|e| e.expired(w)) && valid(to);
                    chk(!sane || r.accepted, || format!("the owner's proposal of {to} was refused: {}", r.err))?;
                }
                Req::Transfer { .. } => chk(!r.head_ok(), || format!("a proposal by {from}, who is not the owner, was accepted"))?,
                Req::SetCb(c) => {
                    let want = *from == w.ghost.owner && c.as_ref().is_none_or(|c| valid(c));
                    chk(r.accepted == want, || format!("{from} {} although the owner is {}", if r.accepted { "has the owner's rights" } else { "was refused" }, w.ghost.owner))?;
                }
                _ => {}
            }
        }
        if n.inst {
            let q = n.q_owner()?;
            let want = ownership_json(&n.ghost);
            chk(q == want, || format!("ownership query reports {q}, expected {want}"))?;
        }
        Ok(())
    };
    let mut insts = vec![];
    for owner in [Some(owner()), None, Some(addr("creator")), Some(contract_addr())] {
        for cb in [None, Some(addr("cb1")), Some(addr("creator")), Some(addr("owner")), Some(addr("heir"))] {
            insts.push(Act::Inst { from: addr("creator"), owner: owner.clone(), opts: opts_a(), cb });
        }
    }
    let mut transfers = vec![];
    for to in ["heir", "heir2", "owner"] {
        for e in [None, Some(Exp::Never), Some(Exp::Height(h + 1)), Some(Exp::Height(h)), Some(Exp::Time(t + 6_000_000_000)), Some(Exp::Time(t + 6_000_000_001)), Some(Exp::Height(h + 2))] {
            if to == "heir" || e.is_none() || e == Some(Exp::Height(h + 1)) {
                transfers.push((addr(to), e));
            }
        }
    }
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let mut v = vec![];
        for p in parties.iter().map(|p| addr(p)).chain([contract_addr(), w.ghost.owner.clone()]) {
            v.push(exec(&p, Req::SetCb(None)));
            v.push(exec(&p, Req::SetCb(Some(addr("cb1")))));
            v.push(exec(&p, Req::Renounce));
            v.push(exec(&p, Req::Accept));
            v.push(exec(&p, Req::Transfer { to: p.clone(), exp: None }));
            v.push(exec(&p, Req::Transfer { to: "bad".into(), exp: None }));
            v.push(exec(&p, Req::Transfer { to: String::new(), exp: None }));
            v.push(exec(&p, Req::Transfer { to: addr("heir").to_uppercase(), exp: None }));
        }
        v
    };
    let k = Knobs {
        insts: insts.clone(),
        transfers: transfers.clone(),
        accepts: parties.iter().map(|p| addr(p)).collect(),
        advances: vec![(6, 1), (3, 1)],
        max_adv: 3,
        max_chans: 1,
        ..Knobs::default()
    };
    explore(
        rep,
        &Cfg {
            name: "transfers".into(),
            root: World::new(Params::default()),
            depth: if deep { 9 } else { 8 },
            gen: &|w| {
                let mut v = gen(&k, w);
                v.retain(|a| !matches!(a, Act::OpenAck { .. }));
                v
            },
            probe: &probe,
            mon: &mon,
        },
    );
    let k = Knobs {
        insts,
        transfers: vec![(addr("heir"), None), (addr("heir2"), Some(Exp::Height(h + 1)))],
        accepts: vec![addr("heir"), addr("heir2")],
        creates: vec![None],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        acks: vec![AckK::Good],
        timeouts: true,
        advances: vec![(6, 1)],
        max_adv: 1,
        migrate: true,
        setcb: vec![Some(addr("heir"))],
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "with-traffic".into(), root: World::new(Params::default()), depth: if deep { 9 } else { 7 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}

fn state_json(w: &World) -> Json {
    let ica = w.ghost.tracked.map_or(Json::Null, |t| json!({"ica_address": w.ghost.ica, "channel_id": w.chans[t].id, "encoding": "proto3"}));
    json!({"ica_info": ica, "callback_address": opt(&w.ghost.cb)})
}

pub fn c22(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration over instantiation variants, callback updates (set, replace, clear, invalid), handshakes, sends, acks, timeouts, closes, transfers, migration".into());
    let bad = ["", "x", "cosmwasm1", "cosmos1qqqq", "not an address"];
    let up = addr("cb2").to_uppercase();
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let invalid = |s: &Option<String>| s.as_ref().is_some_and(|s| !valid(s));
        match a {
            Act::Inst { owner, cb, .. } => {
                let inv = invalid(owner) || invalid(cb);
                chk(!(inv && r.head_ok()), || format!("instantiation with owner {owner:?} and callback address {cb:?} was accepted"))?;
                chk(inv || r.accepted, || format!("instantiation with owner {owner:?} and callback address {cb:?} was refused: {}", r.err))?;
            }
            Act::Exec { from, req: Req::SetCb(c), .. } if *from == w.ghost.owner => {
                let inv = invalid(c);
                chk(!(inv && r.head_ok()), || format!("callback address {c:?} was accepted"))?;
                chk(inv || r.accepted, || format!("callback address {c:?} was refused: {}", r.err))?;
            }
            Act::Exec { from, req: Req::Transfer { to, .. }, .. } if *from == w.ghost.owner => {
                chk(valid(to) || !r.head_ok(), || format!("the ownership was offered to {to:?}, which is no address"))?;
            }
            _ => {}
        }
        if n.inst {
            let q = n.q_state()?;
            let want = state_json(n);
            chk(q == want, || format!("contract-state query reports {q}, expected {want}"))?;
        }
        Ok(())
    };
    let mut insts = vec![];
    for owner in [None, Some(owner())].into_iter().chain(bad.iter().map(|b| Some(b.to_string()))).chain([Some(up.clone())]) {
        for cb in [None, Some(addr("cb1")), Some(addr("owner"))].into_iter().chain(bad.iter().map(|b| Some(b.to_string()))).chain([Some(up.clone())]) {
            insts.push(Act::Inst { from: addr("creator"), owner: owner.clone(), opts: opts_u(), cb: cb.clone() });
            if owner.is_none() {
                insts.push(Act::Inst { from: addr("creator"), owner: owner.clone(), opts: opts_a(), cb });
            }
        }
    }
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let o = w.ghost.owner.clone();
        let mut v: Vec<Act> = bad.iter().map(|b| exec(&o, Req::SetCb(Some(b.to_string())))).collect();
        v.push(exec(&o, Req::SetCb(Some(up.clone()))));
        v.push(exec(&o, Req::SetCb(Some(addr("cb3")))));
        v.push(exec(&o, Req::SetCb(w.ghost.cb.clone())));
        for p in ["owner", "creator", "heir", "relayer"].map(addr).into_iter().chain([o.clone(), contract_addr()]) {
            v.push(exec(&o, Req::SetCb(Some(p))));
        }
        v.push(exec(&addr("stranger"), Req::SetCb(None)));
        for b in bad.iter().map(|b| b.to_string()).chain([up.clone()]) {
            v.push(exec(&o, Req::Transfer { to: b, exp: None }));
        }
        v
    };
    // every kind of text as an address
    let mut texts = alpha::strings();
    let base = addr("cb2");
    for i in 0..base.len() {
        texts.push(base[..i].to_string());
        texts.push(format!("{}{}", &base[..i], &base[i + 1..]));
        texts.push(format!("{}{}{}", &base[..i], if &base[i..=i] == "q" { "p" } else { "q" }, &base[i + 1..]));
        texts.push(format!("{}{}{}", &base[..i], base[i..=i].to_uppercase(), &base[i + 1..]));
        texts.push(format!("{} {}", &base[..i], &base[i..]));
    }
    texts.extend([format!("{base} "), format!("{base}\n"), format!("{base}/"), format!("\u{feff}{base}"), format!("{base}{base}")]);
    texts.extend((0..40).map(|i| MockApi::default().addr_make(&format!("a{i}")).to_string()));
    texts.extend((1..=64usize).filter_map(|n| MockApi::default().addr_humanize(&CanonicalAddr::from((0..n).map(|i| i as u8).collect::<Vec<_>>())).ok()).map(|a| a.to_string()));
    let base = step(&World::new(Params::default()), &inst(opts_u(), Some(addr("cb1")))).0;
    enumerate(rep, "addresses", texts.len(), |i| {
        let t = &texts[i];
        let mut calls = 0;
        for o in [opts_a(), opts_u()] {
            for a in [
                Act::Inst { from: addr("creator"), owner: Some(t.clone()), opts: o.clone(), cb: None },
                Act::Inst { from: addr("creator"), owner: Some(t.clone()), opts: o.clone(), cb: Some(t.clone()) },
                Act::Inst { from: addr("creator"), owner: None, opts: o.clone(), cb: Some(t.clone()) },
            ] {
                let w = World::new(Params::default());
                let (n, r) = step(&w, &a);
                mon(&w, &a, &r, &n).map_err(|e| (e, json!(a)))?;
                calls += 1;
            }
        }
        for req in [Req::SetCb(Some(t.clone())), Req::Transfer { to: t.clone(), exp: None }] {
            let a = exec(&base.ghost.owner, req);
            let (n, r) = step(&base, &a);
            mon(&base, &a, &r, &n).map_err(|e| (e, json!(a)))?;
            calls += 1;
        }
        Ok(calls)
    });
    let k = Knobs {
        insts,
        creates: vec![None, Some(opts_b())],
        close: true,
        close_confirm: true,
        sends: vec![send1(), send(vec![], vec![cases::query_id("balance")])],
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        setcb: vec![None, Some(addr("cb1")), Some(addr("cb2"))],
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        addrs: 2,
        max_chans: 3,
        max_inflight: 1,
        max_sends: 2,
        cb_fail: true,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "configuration".into(), root: World::new(Params::default()), depth: if deep { 10 } else { 7 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    let k = Knobs { insts: vec![inst(opts_u(), Some(addr("cb1"))), inst(opts_a(), None)], ..k };
    explore(rep, &Cfg { name: "detached".into(), root: detached_root(), depth: if deep { 11 } else { 9 }, gen: &|w| gen_detached(&k, w), probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 6 }, true, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}
