//! C03 .. C09: the channel life cycle.

use super::*;
use crate::alpha;
use crate::engine::{enumerate, explore, none, Cfg, Report};

pub fn raw(o: &Opts, version: &str) -> RawChan {
    RawChan { port: port(), id: String::new(), cpty_port: o.eff_port(), cpty_chan: String::new(), order: o.eff_order(), version: version.into(), conn: o.conn.clone() }
}

pub fn init_version(o: &Opts) -> String {
    Meta::good(&o.conn, &o.cconn, "").text()
}

/// Handshake starts that somebody else might submit.
fn foreign_inits(w: &World) -> Vec<Act> {
    let mut v = vec![];
    let mut os = vec![opts_a(), opts_u(), opts_b(), opts_c(), Opts::new("connection-0", "connection-1", Some("transfer"), None)];
    os.extend(w.ghost.opts.clone());
    for o in os {
        v.push(Act::RelayInit(raw(&o, &init_version(&o))));
        v.push(Act::RelayInit(raw(&o, "")));
    }
    v.push(Act::RelayInit(raw(&opts_a(), &Meta::good("connection-0", "connection-1", "cosmos1ica0").text())));
    v.push(Act::RelayInit(raw(&opts_a(), "garbage")));
    v
}

fn foreign_others(w: &World) -> Vec<Act> {
    let mut v = vec![];
    let ver = Meta::good("connection-0", "connection-1", "cosmos1ica0").text();
    let mut chans: Vec<RawChan> = w
        .chans
        .iter()
        .map(|c| RawChan { port: c.port.clone(), id: c.id.clone(), cpty_port: c.cpty_port.clone(), cpty_chan: cpty_id(0), order: c.order, version: c.version.clone(), conn: c.conn.clone() })
        .collect();
    chans.push(RawChan { id: "channel-77".into(), cpty_chan: "channel-9".into(), ..raw(&opts_a(), &ver) });
    chans.push(RawChan { id: "channel-77".into(), cpty_chan: "channel-9".into(), ..raw(&opts_u(), "") });
    for c in chans {
        v.push(Act::RelayTry(c.clone(), ver.clone()));
        v.push(Act::RelayTry(c.clone(), String::new()));
        v.push(Act::RelayConfirm(c.clone()));
        for data in [vec![], b"{}".to_vec(), br#"{"type":1,"data":"","memo":""}"#.to_vec()] {
            v.push(Act::Recv { port: c.port.clone(), ch: c.id.clone(), data });
        }
    }
    v
}

pub fn c03(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration with up to 3 channels; in every reached state 14 unsolicited handshake starts and all try/confirm/receive variants; plus the detached mode, in which the chain delivers requested handshake starts late, repeatedly and interleaved".into());
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let inits = r.n_ok("open_init");
        match a {
            Act::RelayInit(c) => {
                let credit = if w.p.detached { w.ghost.open_credit } else { 0 };
                chk(credit > 0 || !r.head_ok(), || format!("a handshake start that the controller did not request was accepted: {c:?}"))?;
                if !r.head_ok() {
                    chk(n.store == w.store, || "a refused handshake start changed the stored data".into())?;
                }
            }
            Act::Inst { .. } | Act::Exec { req: Req::Create(_), .. } => chk(inits <= 1, || format!("{inits} handshake starts for one request"))?,
            Act::RelayTry(..) => chk(!r.head_ok(), || "an OpenTry was accepted".into())?,
            Act::RelayConfirm(..) => chk(!r.head_ok(), || "an OpenConfirm was accepted".into())?,
            Act::Recv { .. } => chk(!r.head_ok(), || "an incoming packet was accepted".into())?,
            _ => {}
        }
        if !matches!(a, Act::RelayInit(_) | Act::Inst { .. } | Act::Exec { req: Req::Create(_), .. }) {
            chk(inits == 0, || format!("{a:?} started a handshake"))?;
            chk(n.ghost.open_credit <= w.ghost.open_credit, || format!("{a:?} requested a channel"))?;
        } else {
            chk(n.ghost.open_credit - w.ghost.open_credit <= 1, || "one request proposed more than one channel".into())?;
        }
        Ok(())
    };
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1"))), inst(Opts::new("connection-9", "connection-1", Some("other"), None), None)],
        creates: vec![None, Some(opts_b()), Some(Opts::new("connection-0", "connection-1", Some("other"), None))],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        acks: vec![AckK::Good],
        timeouts: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        setcb: vec![Some(addr("cb2"))],
        migrate: true,
        cb_fail: true,
        max_chans: 3,
        max_sends: 1,
        ..Knobs::default()
    };
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let mut v = foreign_inits(w);
        v.extend(foreign_others(w));
        v
    };
    explore(rep, &Cfg { name: "unsolicited".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    // detached: the start of the handshake is delivered separately from the request
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_b(), None)],
        creates: vec![None, Some(opts_a()), Some(opts_b())],
        close: true,
        close_confirm: true,
        migrate: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        max_chans: 3,
        ..Knobs::default()
    };
    let gen_d = |w: &World| {
        let mut v = gen(&k, w);
        // no more than two requests outstanding
        if w.ghost.open_credit >= 2 {
            v.retain(|a| !matches!(a, Act::Exec { req: Req::Create(_), .. }));
        }
        if w.inst && w.chans.len() < 3 {
            v.extend(foreign_inits(w));
        }
        v
    };
    explore(
        rep,
        &Cfg { name: "detached".into(), root: World::new(Params { detached: true, ..Params::default() }), depth: if deep { 11 } else { 9 }, gen: &gen_d, probe: &|w: &World| if w.inst { foreign_others(w) } else { vec![] }, mon: &mon },
    );
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}

fn foreign_closes(w: &World) -> Vec<Act> {
    let mut v: Vec<Act> = (0..w.chans.len()).map(|ch| Act::CloseInit { ch }).collect();
    let ver = Meta::good("connection-0", "connection-1", "cosmos1ica0").text();
    v.push(Act::CloseRaw { init: true, chan: RawChan { id: "channel-77".into(), cpty_chan: "channel-9".into(), ..raw(&opts_a(), &ver) } });
    for c in &w.chans {
        // a record of another channel that resembles this one
        v.push(Act::CloseRaw {
            init: true,
            chan: RawChan { port: c.port.clone(), id: format!("{}7", c.id), cpty_port: c.cpty_port.clone(), cpty_chan: c.cpty_chan.clone(), order: c.order, version: c.version.clone(), conn: c.conn.clone() },
        });
        // already closed by the chain
        if c.st == St::Closed {
            v.push(Act::CloseRaw {
                init: true,
                chan: RawChan { port: c.port.clone(), id: c.id.clone(), cpty_port: c.cpty_port.clone(), cpty_chan: c.cpty_chan.clone(), order: c.order, version: c.version.clone(), conn: c.conn.clone() },
            });
        }
    }
    v
}

fn tracked_open(w: &World) -> Option<usize> {
    w.ghost.tracked.filter(|t| w.chans[*t].st == St::Open)
}

pub fn c04(rep: &mut Report, deep: bool) {
    rep.bounds.push("all histories of transactions up to the depth of each exploration with up to 3 channels; in every reached state a close started by a third party is tried for every channel and for unknown ones; plus the detached mode (owner closes delivered late and interleaved)".into());
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let closes = r.n_ok("close_init");
        match a {
            Act::CloseInit { ch } => {
                let credit = if w.p.detached { w.ghost.close_credit } else { 0 };
                let ok = credit > 0 && tracked_open(w) == Some(*ch);
                chk(ok || !r.head_ok(), || format!("a close of channel {ch} that the owner did not request was accepted (requests outstanding: {credit}, tracked {:?})", w.ghost.tracked))?;
            }
            Act::CloseRaw { .. } => chk(!r.head_ok(), || "a close of a channel that is not tracked was accepted".into())?,
            Act::Exec { from, req: Req::Close, .. } if *from == w.ghost.owner => {
                let msgs: Vec<String> = r
                    .head()
                    .map(|c| {
                        c.msgs
                            .iter()
                            .map(|m| match &m.msg {
                                CosmosMsg::Ibc(cosmwasm_std::IbcMsg::CloseChannel { channel_id }) => channel_id.clone(),
                                x => format!("{x:?}"),
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                match tracked_open(w) {
                    Some(t) => {
                        chk(r.accepted, || format!("the owner's close of the open channel was refused: {}", r.err))?;
                        chk(msgs == [w.chans[t].id.clone()], || format!("the owner's close emitted {msgs:?}, the open channel is {}", w.chans[t].id))?;
                        if !w.p.detached {
                            chk(closes == 1 && n.chans[t].st == St::Closed, || format!("{closes} closes for one request"))?;
                        }
                    }
                    None => chk(!r.head_ok(), || format!("a close request without an open channel was accepted and emitted {msgs:?}"))?,
                }
            }
            _ => {
                chk(closes == 0, || format!("{a:?} closed a channel"))?;
                chk(n.ghost.close_credit <= w.ghost.close_credit, || format!("{a:?} requested a close"))?;
            }
        }
        Ok(())
    };
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let mut v = foreign_closes(w);
        v.push(exec(&w.ghost.owner, Req::Close));
        v
    };
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b())],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        acks: vec![AckK::Good, AckK::Error],
        timeouts: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        cb_fail: true,
        max_chans: 4,
        max_sends: 3,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "unsolicited".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), None)],
        creates: vec![None],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        timeouts: true,
        migrate: true,
        max_chans: 3,
        max_sends: 1,
        ..Knobs::default()
    };
    let gen_d = |w: &World| {
        let mut v = gen(&k, w);
        if w.ghost.close_credit >= 2 {
            v.retain(|a| !matches!(a, Act::Exec { req: Req::Close, .. }));
        }
        if w.inst {
            if w.ghost.open_credit > 0 {
                v.retain(|a| !matches!(a, Act::Exec { req: Req::Create(_), .. }));
                let o = w.ghost.opts.clone().unwrap();
                v.push(Act::RelayInit(raw(&o, &init_version(&o))));
            }
            v.extend(foreign_closes(w));
        }
        v
    };
    explore(rep, &Cfg { name: "detached".into(), root: World::new(Params { detached: true, ..Params::default() }), depth: if deep { 12 } else { 10 }, gen: &gen_d, probe: &none, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}

/// Signers named in a packet of one bank send.
pub fn packet_signer(data: &[u8]) -> Option<String> {
    let v: Json = serde_json::from_slice(data).ok()?;
    let tx = packets::packet_tx(&v)?;
    let any = pb::get_rep(&pb::dec(&tx)?, 1).first()?.clone();
    let val = pb::get_b(&pb::dec(&any)?, 2).to_vec();
    Some(pb::get_s(&pb::dec(&val)?, 1))
}

/// Is the first thing in the packet of this (surely supported) request signed by its field 1?
fn signed(req: &Req) -> bool {
    match req {
        Req::Send { msgs, queries, timeout, .. } => {
            let ok = |q: &u32| matches!(cases::queries()[*q as usize].kind, "balance" | "wasm_smart");
            let plain = |m: &u32| cases::msgs()[*m as usize].kind == "bank_send";
            timeout.is_none_or(|t| t < 1_000_000) && queries.iter().all(ok) && msgs.iter().all(|m| plain(m) || *m == cases::msg_id("stargate")) && (msgs.first().is_some_and(plain) || msgs.is_empty() && !queries.is_empty())
        }
        _ => false,
    }
}

pub fn c05(rep: &mut Report, deep: bool) {
    rep.bounds.push("up to 4 concurrent handshakes completed in every order, with closes, timeouts and reopening, all histories of transactions up to the depth of each exploration; in every state further starts and completions are tried".into());
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let open: Vec<&str> = n.chans.iter().filter(|c| c.st == St::Open).map(|c| c.id.as_str()).collect();
        chk(open.len() <= 1, || format!("the chain holds several open channels of the controller: {open:?}"))?;
        if let Some(t) = tracked_open(w) {
            match a {
                Act::Exec { req: Req::Create(_), .. } if !w.p.detached => chk(!r.accepted, || "a channel was created while one is open".into())?,
                Act::RelayInit(_) => chk(!r.head_ok(), || "a handshake start was accepted while a channel is open".into())?,
                Act::OpenAck { ch, .. } => chk(!r.head_ok(), || format!("the handshake of channel {ch} was completed while channel {t} is open"))?,
                _ => {}
            }
            if n.chans[t].st == St::Open {
                chk(n.q_channel()? == w.q_channel()?, || format!("{a:?} changed the reported channel"))?;
                let (p, q) = (w.q_state()?["ica_info"].clone(), n.q_state()?["ica_info"].clone());
                chk(p == q, || format!("{a:?} changed the account info from {p} to {q}"))?;
            }
            for (ch, seq) in &r.sent {
                let Act::Exec { req, .. } = a else { continue };
                chk(*ch == t, || format!("a packet was sent over channel {ch}, the open channel is {t}"))?;
                let s = packet_signer(&n.chans[*ch].packets[seq].data);
                chk(!signed(req) || s.as_deref() == Some(&w.ghost.ica), || format!("a packet acts for account {s:?}, the open channel's account is {}", w.ghost.ica))?;
            }
        }
        Ok(())
    };
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b()), Some(opts_c())],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        timeouts: true,
        acks: vec![AckK::Good],
        migrate: true,
        addrs: 2,
        max_chans: 4,
        max_sends: 1,
        ..Knobs::default()
    };
    let probe = |w: &World| {
        if tracked_open(w).is_none() {
            return vec![];
        }
        let mut v = foreign_inits(w);
        for o in [None, Some(opts_a()), Some(opts_u()), Some(opts_b()), Some(opts_c())] {
            v.push(exec(&w.ghost.owner, Req::Create(o)));
        }
        for (i, c) in w.chans.iter().enumerate() {
            for ica in [ica_name(i, 0), w.ghost.ica.clone()] {
                for cp in [w.cpty_id(i), w.cpty_id(w.ghost.tracked.unwrap())] {
                    v.push(Act::OpenAck { ch: i, version: host_version(c, &ica), cpty_chan: cp, cb_ok: true });
                }
            }
        }
        v
    };
    explore(rep, &Cfg { name: "concurrent".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    // requests accepted earlier whose handshake start is delivered while a channel is open
    let k = Knobs { insts: vec![inst(opts_a(), None), inst(opts_u(), None)], creates: vec![None, Some(opts_b())], close_confirm: true, max_chans: 3, ..Knobs::default() };
    let gen_d = |w: &World| {
        let mut v = gen(&k, w);
        if w.inst {
            if w.ghost.open_credit >= 1 {
                v.retain(|a| !matches!(a, Act::Exec { req: Req::Create(_), .. }));
            }
            if w.chans.len() < 3 && w.ghost.open_credit > 0 {
                for o in [opts_a(), opts_b(), opts_u()] {
                    v.push(Act::RelayInit(raw(&o, &init_version(&o))));
                }
            }
        }
        v
    };
    explore(rep, &Cfg { name: "detached".into(), root: World::new(Params { detached: true, ..Params::default() }), depth: if deep { 11 } else { 9 }, gen: &gen_d, probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}

pub fn status_json(c: &Chan) -> Json {
    json!({"channel": c.json(), "channel_status": if c.st == St::Open { "STATE_OPEN" } else { "STATE_CLOSED" }})
}

pub fn c06(rep: &mut Report, deep: bool) {
    rep.bounds.push("up to 3 channels, ordered and unordered, up to 3 packets in flight across current and previous channels, closes by either side, acks and timeouts in every possible order, failing callbacks; all histories of transactions up to the depth of each exploration".into());
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        match a {
            Act::CloseConfirm { ch } if tracked_open(w) == Some(*ch) => chk(r.accepted, || format!("the counterparty's close of the tracked channel was refused: {}", r.err))?,
            Act::Timeout { ch, cb_ok: true, .. } if w.ghost.tracked == Some(*ch) => chk(r.accepted, || format!("a timeout on the tracked channel was refused: {}", r.err))?,
            _ => {}
        }
        if n.inst {
            match n.ghost.tracked {
                None => chk(n.q_channel().is_err(), || "a channel is reported before any handshake completed".into())?,
                Some(t) => {
                    let q = n.q_channel()?;
                    let want = status_json(&n.chans[t]);
                    chk(q == want, || format!("the channel query reports {q}, the chain holds {want}"))?;
                }
            }
        }
        Ok(())
    };
    for (name, insts, creates) in [
        ("ordered", vec![inst(opts_a(), None), inst(opts_a(), Some(addr("cb1")))], vec![None, Some(opts_b())]),
        ("unordered", vec![inst(opts_u(), None), inst(opts_u(), Some(addr("cb1")))], vec![None, Some(opts_c())]),
    ] {
        let k = Knobs {
            insts,
            creates,
            close: true,
            close_confirm: true,
            sends: vec![send1(), send(vec![], vec![cases::query_id("balance")])],
            timeouts: true,
            acks: vec![AckK::Good, AckK::Error],
            migrate: true,
            cb_fail: true,
            setcb: vec![None],
            max_chans: 3,
            max_inflight: 3,
            max_sends: 3,
            ..Knobs::default()
        };
        explore(rep, &Cfg { name: name.into(), root: World::new(Params::default()), depth: if deep { 13 } else { 10 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
        let k = Knobs { max_sends: 1, cb_fail: false, setcb: vec![], sends: vec![send1()], acks: vec![AckK::Good], ..k };
        explore(rep, &Cfg { name: format!("{name}, detached"), root: detached_root(), depth: if deep { 13 } else { 11 }, gen: &|w| gen_detached(&k, w), probe: &none, mon: &mon });
    }
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &none, &mon);
    wide::arguments(rep, deep, &mon);
}

/// Does the message propose exactly the configured channel?
pub fn proposes(m: &SubMsg, o: &Opts) -> Result<(), String> {
    proposes_for(&m.msg, o, &contract_addr(), "proto3")
}

/// The same for any contract and encoding.
pub fn proposes_for(m: &CosmosMsg, o: &Opts, contract: &str, encoding: &str) -> Result<(), String> {
    #[allow(deprecated)]
    let (t, v) = match m {
        CosmosMsg::Stargate { type_url, value } => (type_url, value),
        x => return Err(format!("not a channel-open request: {x:?}")),
    };
    chk(t == "/ibc.core.channel.v1.MsgChannelOpenInit", || format!("message type {t}"))?;
    let (c, _, _) = parse_open_init(v)?;
    let want = pb::msg([
        pb::s(1, &format!("wasm.{contract}")),
        pb::m(
            2,
            pb::msg([
                pb::u(1, 1),
                pb::u(2, if o.eff_order() == Ord_::Ordered { 2 } else { 1 }),
                pb::m(3, pb::msg([pb::s(1, &o.eff_port())])),
                Some((4, V::B(o.conn.as_bytes().to_vec()))),
                Some((5, V::B(c.version.as_bytes().to_vec()))),
            ]),
        ),
        pb::s(3, contract),
    ]);
    pb::same(&want, v)?;
    let got: Json = serde_json::from_str(&c.version).map_err(|e| format!("version metadata {:?}: {e}", c.version))?;
    let mut want = Meta::good(&o.conn, &o.cconn, "").json();
    want["encoding"] = json!(encoding);
    chk(got == want, || format!("version metadata {got}, expected {want}"))
}

pub fn c07(rep: &mut Report, deep: bool) {
    rep.bounds.push("full product of connection ids x counterparty connection ids x counterparty port x ordering (including unset, empty, non-ASCII, JSON-special and long strings), each through an alphabet of 150 texts and 290 connection numbers, at instantiation, in explicit create requests after each other option set, and in create requests that reuse stored options".into());
    let strs = ["connection-0", "connection-1", "connection-18446744073709551615", "07-tendermint", "", "a\"b\\c/\n\u{1}", "Ünïcødé", "connection-0 "];
    let mut os = vec![];
    for c in strs.iter().copied().chain([LONG]) {
        for cc in strs.iter().copied().chain([LONG]) {
            for p in [None, Some("icahost"), Some(""), Some("transfer"), Some("icahost\"")] {
                for o in [None, Some(Ord_::Ordered), Some(Ord_::Unordered)] {
                    os.push(Opts::new(c, cc, p, o));
                }
            }
        }
    }
    for t in alpha::strings() {
        os.push(Opts::new(&t, "connection-1", None, None));
        os.push(Opts::new("connection-0", &t, None, Some(Ord_::Unordered)));
        os.push(Opts::new("connection-0", "connection-1", Some(&t), None));
        os.push(Opts::new(&t, &t, Some(&t), Some(Ord_::Ordered)));
    }
    for n in (0..=40).chain(alpha::u64s()) {
        os.push(Opts::new(&format!("connection-{n}"), "connection-1", None, None));
        os.push(Opts::new("connection-0", &format!("connection-{n}"), None, Some(Ord_::Unordered)));
        os.push(Opts::new(&format!("connection-{n}"), &format!("connection-{n}"), None, None));
    }
    let root = World::new(Params { lax: true, detached: true, ..Params::default() });
    let one = |a: &Act, w: &World, o: &Opts| -> Result<World, (String, Json)> {
        let (n, r) = step(w, a);
        let case = || json!({"action": a});
        let valid = known(&o.conn) && known(&o.cconn) && o.eff_port() == "icahost";
        if !r.head_ok() {
            if valid {
                return Err((format!("a valid request was refused: {}", r.err), case()));
            }
            return Ok(n);
        }
        let h = r.head().unwrap();
        if h.msgs.len() != 1 {
            return Err((format!("{} messages emitted", h.msgs.len()), case()));
        }
        proposes(&h.msgs[0], o).map_err(|e| (e, case()))?;
        Ok(n)
    };
    let envs: Vec<Option<u32>> = vec![Some(3), None];
    enumerate(rep, "instantiate", os.len() * 2 * 2, |i| {
        let o = &os[i / 4];
        let w = World::new(Params { tx_index: envs[i % 2], ..(*root.p).clone() });
        let a = if i / 2 % 2 == 0 {
            inst(o.clone(), None)
        } else {
            Act::Inst { from: addr("creator"), owner: None, opts: o.clone(), cb: Some(addr("cb1")) }
        };
        let n = one(&a, &w, o)?;
        // the stored options are used by a request without options, any number of times
        if n.inst {
            let n = one(&exec(&n.ghost.owner, Req::Create(None)), &n, o)?;
            one(&exec(&n.ghost.owner, Req::Create(None)), &n, o)?;
        }
        Ok(3)
    });
    let first = [opts_a(), opts_b(), Opts::new("connection-7", "connection-8", Some("icahost"), Some(Ord_::Ordered))];
    enumerate(rep, "create", os.len() * first.len(), |i| {
        let o = &os[i / first.len()];
        let f = &first[i % first.len()];
        let n = one(&inst(f.clone(), None), &root, f)?;
        let m = one(&exec(&n.ghost.owner, Req::Create(Some(o.clone()))), &n, o)?;
        let last = m.ghost.opts.clone().unwrap();
        let m = one(&exec(&m.ghost.owner, Req::Create(None)), &m, &last)?;
        let m = one(&exec(&m.ghost.owner, Req::Create(Some(f.clone()))), &m, f)?;
        one(&exec(&m.ghost.owner, Req::Create(None)), &m, f)?;
        Ok(5)
    });
    // and in every state of the life cycle
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b()), Some(opts_c())],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        acks: vec![AckK::Good],
        timeouts: true,
        transfers: vec![(addr("heir"), None)],
        accepts: vec![addr("heir")],
        migrate: true,
        max_chans: 3,
        max_sends: 1,
        addrs: 2,
        ..Knobs::default()
    };
    let mon = |w: &World, a: &Act, r: &Rec, _n: &World| {
        let o = match a {
            Act::Inst { opts, .. } => opts.clone(),
            Act::Exec { req: Req::Create(Some(o)), .. } => o.clone(),
            Act::Exec { req: Req::Create(None), .. } => w.ghost.opts.clone().unwrap(),
            _ => return Ok(()),
        };
        if let Some(h) = r.head().filter(|h| h.ok) {
            chk(h.msgs.len() == 1, || format!("{} messages emitted", h.msgs.len()))?;
            proposes(&h.msgs[0], &o)?;
            if r.accepted {
                chk(r.all_msgs().len() == 1, || format!("the request emitted {} messages", r.all_msgs().len()))?;
            }
        }
        Ok(())
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &none, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &none, &mon);
    wide::arguments(rep, deep, &mon);
}

const LONG: &str = "connection-00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001";

fn known(c: &str) -> bool {
    c == "connection-0" || c == "connection-1" || c == "connection-7" || c == "connection-8"
}

fn alnum(a: &str) -> bool {
    a.len() <= 128 && a.bytes().all(|b| b.is_ascii_alphanumeric())
}

struct MetaCase {
    text: String,
    /// None: not prescribed
    good: Option<bool>,
    value: Option<Json>,
    address: String,
}

/// Metadata for a channel over `conn`.
fn meta_cases(conn: &str, deep: bool) -> Vec<MetaCase> {
    let mut v = vec![];
    let a128 = "a1".repeat(64);
    let a129 = format!("{a128}z");
    let versions = ["ics27-1", "ics27-2", "", "ICS27-1", "ics27-1 ", "ics27-10", "ics20-1", "ics27"];
    let ctrls = [conn.to_string(), "connection-99".into(), String::new(), format!("{conn}0"), conn.to_uppercase(), "connection-1".into()];
    let hosts = ["connection-1", "", "connection-99"];
    let addrs = ["", "cosmos1ica", "A", "0", a128.as_str(), a129.as_str(), "cosmos1-ica", "cosmos1 ica", "cosmos1ica ", "cosmos1/ica", "cosmos1ica\n", "a\u{0}b", "_", ".", "cosmos1:x"];
    let encs = ["proto3", "proto3json", "", "PROTO3", "amino", "proto3 "];
    let txs = ["sdk_multi_msg", "", "sdk_multi_msg ", "SDK_MULTI_MSG", "sdk_single_msg", "multi"];
    let mut add = |m: Meta| {
        let good = m.version == "ics27-1" && m.ctrl == conn && m.encoding == "proto3" && m.tx == "sdk_multi_msg" && alnum(&m.address);
        v.push(MetaCase { text: m.text(), good: Some(good), value: Some(m.json()), address: m.address.clone() });
    };
    for (iv, ver) in versions.iter().enumerate() {
        for (ic, c) in ctrls.iter().enumerate() {
            for h in hosts {
                for (ia, a) in addrs.iter().enumerate() {
                    for (ie, e) in encs.iter().enumerate() {
                        for (it, t) in txs.iter().enumerate() {
                            // all combinations of the first three values of each field; the others deviate at most twice
                            let small = iv < 2 && ic < 2 && ia < 7 && ie < 2 && it < 2;
                            let dev = [iv, ic, ie, it].iter().filter(|x| **x != 0).count() + usize::from(ia >= 2);
                            if small || dev <= 1 || (deep && dev <= 3) {
                                add(Meta { version: (*ver).into(), ctrl: c.clone(), host: h.into(), address: (*a).into(), encoding: (*e).into(), tx: (*t).into() });
                            }
                        }
                    }
                }
            }
        }
    }
    // one field at a time through its whole alphabet
    let base = Meta::good(conn, "connection-1", "cosmos1ica");
    for t in alpha::strings().into_iter().chain(alpha::near("ics27-1")) {
        add(Meta { version: t, ..base.clone() });
    }
    for t in alpha::strings().into_iter().chain(alpha::near(conn)) {
        add(Meta { ctrl: t, ..base.clone() });
    }
    for t in alpha::strings() {
        add(Meta { host: t, ..base.clone() });
    }
    for t in alpha::strings().into_iter().chain(alpha::near("proto3")) {
        add(Meta { encoding: t, ..base.clone() });
    }
    for t in alpha::strings().into_iter().chain(alpha::near("sdk_multi_msg")) {
        add(Meta { tx: t, ..base.clone() });
    }
    for n in (1..=300usize).chain([511, 512, 1000, 1024, 65_535, 65_536, 70_000]) {
        for x in ["a", "Z9", "0"] {
            add(Meta { address: x.chars().cycle().take(n).collect(), ..base.clone() });
        }
    }
    for x in (0..128u8).map(char::from) {
        for t in [format!("{x}"), format!("{x}cosmos1"), format!("cosmos1{x}ica"), format!("cosmos1ica{x}"), format!("{}{x}", "a".repeat(127)), format!("{x}{}", "a".repeat(127))] {
            add(Meta { address: t, ..base.clone() });
        }
    }
    let txt = base.text();
    // other spellings of the same document
    let mut spell = |t: String| v.push(MetaCase { text: t, good: Some(true), value: Some(base.json()), address: base.address.clone() });
    spell(base.json().to_string());
    spell(serde_json::to_string_pretty(&base.json()).unwrap());
    spell(format!(" {txt}\n"));
    spell(txt.replace(':', " : ").replace(',', " ,\t"));
    spell(txt.replace("ics27-1", "\\u0069cs27-1").replace("cosmos1ica", "c\\u006fsmos1ica"));
    let mut bad = |t: String| v.push(MetaCase { text: t, good: Some(false), value: None, address: String::new() });
    for i in 1..txt.len() {
        bad(txt[..i].to_string());
        bad(txt[i..].to_string());
    }
    for k in ["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"] {
        let mut j = base.json();
        j.as_object_mut().unwrap().remove(k);
        bad(j.to_string());
        for x in [json!(null), json!(1), json!([]), json!({}), json!(true)] {
            let mut j = base.json();
            j[k] = x;
            bad(j.to_string());
        }
    }
    for t in ["{}", "null", "[]", "\"\"", "ics27-1", "0", "{", "}", " ", "true", "{\"version\":\"ics27-1\"}"] {
        bad(t.into());
    }
    bad(format!("{txt}x"));
    bad(format!("{txt}{txt}"));
    bad(format!("[{txt}]"));
    bad(json!(txt).to_string());
    v
}

pub fn c08(rep: &mut Report, deep: bool) {
    rep.bounds.push("product of metadata field values (8 versions x 6 connections x 3 host connections x 15 addresses x 6 encodings x 6 transaction types: all combinations of up to one unusual value plus the full product of the core values; up to three unusual values in the thorough tier), every prefix and suffix of a valid document, missing and mistyped fields; each field through an alphabet of 150 texts and all texts one edit away from the right one, all account lengths up to 300, every ASCII character at every kind of position; at handshake start and completion, for the first channel and for reopened ones, ordered and unordered".into());
    // states in which a start is permitted, and a completion possible
    let det = World::new(Params { detached: true, ..Params::default() });
    let play = |w: &World, acts: &[Act]| -> Option<World> {
        let mut w = w.clone();
        for a in acts {
            let (n, r) = step(&w, a);
            if !r.accepted {
                return None;
            }
            w = n;
        }
        Some(w)
    };
    let o = owner();
    let ri = |x: &Opts| Act::RelayInit(raw(x, &init_version(x)));
    let done = |ch: usize, x: &Opts, ica: &str| Act::OpenAck { ch, version: Meta::good(&x.conn, &x.cconn, ica).text(), cpty_chan: cpty_id(ch), cb_ok: true };
    let oa = |ch: usize, x: &Opts| done(ch, x, "cosmos1old");
    let mut starts: Vec<(&str, Opts, World)> = vec![];
    let mut acks: Vec<(&str, Opts, World, usize)> = vec![];
    let mut add_s = |n: &'static str, x: Opts, w: Option<World>| {
        if let Some(w) = w {
            starts.push((n, x, w));
        }
    };
    add_s("first", opts_a(), play(&det, &[inst(opts_a(), None)]));
    add_s("first, unordered", opts_u(), play(&det, &[inst(opts_u(), Some(addr("cb1")))]));
    let again = |x: &Opts| vec![inst(opts_a(), None), ri(&opts_a()), oa(0, &opts_a()), Act::CloseConfirm { ch: 0 }, exec(&o, Req::Create(Some(x.clone())))];
    add_s("reopened", opts_a(), play(&det, &again(&opts_a())));
    add_s("reopened over another connection", opts_b(), play(&det, &again(&opts_b())));
    add_s("reopened, same account", opts_a(), play(&det, &[inst(opts_a(), None), ri(&opts_a()), done(0, &opts_a(), "cosmos1ica"), Act::CloseConfirm { ch: 0 }, exec(&o, Req::Create(None))]));
    let mut add_a = |n: &'static str, x: Opts, w: Option<World>, ch: usize| {
        if let Some(w) = w {
            acks.push((n, x, w, ch));
        }
    };
    let nor = World::new(Params::default());
    add_a("first", opts_a(), play(&nor, &[inst(opts_a(), None)]), 0);
    add_a("first, unordered, with callback", opts_u(), play(&nor, &[inst(opts_u(), Some(addr("cb1")))]), 0);
    let again = |x: &Opts| vec![inst(opts_a(), None), oa(0, &opts_a()), Act::CloseConfirm { ch: 0 }, exec(&o, Req::Create(Some(x.clone())))];
    add_a("reopened", opts_a(), play(&nor, &again(&opts_a())), 1);
    add_a("reopened over another connection", opts_b(), play(&nor, &again(&opts_b())), 1);
    for x in [opts_a(), opts_u()] {
        let cb = Some(addr("cb1"));
        add_a("reopened, same account", x.clone(), play(&nor, &[inst(x.clone(), cb.clone()), done(0, &x, "cosmos1ica"), exec(&o, Req::Close), exec(&o, Req::Create(None))]), 1);
        add_a("closed twice, same account", x.clone(), play(&nor, &[inst(x.clone(), cb), done(0, &x, "cosmos1ica"), exec(&o, Req::Close), exec(&o, Req::Create(None)), done(1, &x, "cosmos1ica"), Act::CloseConfirm { ch: 1 }, exec(&o, Req::Create(None))]), 2);
    }

    let few = ["icahost", "", "transfer", "icahost2", "ICAHOST", "icacontroller-x", "wasm.x"];
    let ports: Vec<String> = few.iter().map(|s| s.to_string()).chain(alpha::near("icahost")).chain(alpha::strings()).collect();
    let mut ports_seen = vec![];
    for p in ports {
        if !ports_seen.contains(&p) {
            ports_seen.push(p);
        }
    }
    let ports = ports_seen;
    for (n, x, w) in &starts {
        let cs = meta_cases(&x.conn, deep);
        // without metadata the controller uses that of its own request
        let first = n.starts_with("first");
        let other = Opts { conn: "connection-7".into(), ..x.clone() };
        enumerate(rep, &format!("start: {n}"), cs.len() * ports.len() + 2, |i| {
            let own = serde_json::from_str(&init_version(x)).ok();
            let empty = MetaCase { text: String::new(), good: first.then_some(true), value: if first { own } else { None }, address: String::new() };
            let wrong = MetaCase { text: String::new(), good: first.then_some(false), value: None, address: String::new() };
            let (c, p, x) = match i.checked_sub(cs.len() * ports.len()) {
                Some(0) => (&empty, "icahost", x),
                Some(_) => (&wrong, "icahost", &other),
                None => (&cs[i / ports.len()], ports[i % ports.len()].as_str(), x),
            };
            // other ports: the usual ones with all valid metadata, all others with the first ones
            if p != "icahost" && (c.good != Some(true) || !few.contains(&p) && i / ports.len() > 40) {
                return Ok(0);
            }
            let a = Act::RelayInit(RawChan { cpty_port: p.into(), ..raw(x, &c.text) });
            let (m, r) = step(w, &a);
            let case = || json!({"state": n, "action": a, "accepted": r.accepted, "error": r.err});
            let got = r.head_ok();
            if let Some(good) = c.good {
                let want = good && p == "icahost";
                if got != want {
                    return Err((format!("a handshake start with {} metadata and counterparty port {p} was {}", if good { "valid" } else { "invalid" }, if got { "accepted" } else { "refused" }), case()));
                }
            }
            if got {
                let ver: Option<Json> = r.head().unwrap().version.as_ref().and_then(|v| serde_json::from_str(v).ok());
                match &c.value {
                    Some(v) => {
                        if ver.as_ref() != Some(v) {
                            return Err((format!("the version returned is {ver:?}, expected {v}"), case()));
                        }
                    }
                    None => {
                        let ok = ver.is_some_and(|v| v["version"] == "ics27-1" && v["controller_connection_id"] == json!(x.conn) && v["encoding"] == "proto3" && v["tx_type"] == "sdk_multi_msg" && v["address"].as_str().is_some_and(alnum));
                        if !ok {
                            return Err(("the version chosen by the controller is not valid metadata".into(), case()));
                        }
                    }
                }
            } else if m.store != w.store {
                return Err(("a refused handshake start changed the stored data".into(), case()));
            }
            Ok(1)
        });
    }
    for (n, x, w, ch) in &acks {
        let mut cs = meta_cases(&x.conn, deep);
        cs.push(MetaCase { text: String::new(), good: Some(false), value: None, address: String::new() });
        enumerate(rep, &format!("completion: {n}"), cs.len(), |i| {
            let c = &cs[i];
            let a = Act::OpenAck { ch: *ch, version: c.text.clone(), cpty_chan: "channel-141".into(), cb_ok: true };
            let (m, r) = step(w, &a);
            let case = || json!({"state": n, "action": a, "accepted": r.accepted, "error": r.err});
            let want = c.good == Some(true) && !c.address.is_empty();
            if r.accepted != want {
                return Err((format!("a handshake completion with {} metadata was {}", if want { "valid" } else { "invalid" }, if r.accepted { "accepted" } else { "refused" }), case()));
            }
            if want {
                let q = m.q_channel().map_err(|e| (e, case()))?;
                let e = status_json(&m.chans[*ch]);
                if q != e {
                    return Err((format!("the channel query reports {q}, negotiated was {e}"), case()));
                }
                let q = m.q_state().map_err(|e| (e, case()))?["ica_info"].clone();
                let e = json!({"ica_address": c.address, "channel_id": m.chans[*ch].id, "encoding": "proto3"});
                if q != e {
                    return Err((format!("the contract-state query reports {q}, negotiated was {e}"), case()));
                }
            } else if m.store != w.store {
                return Err(("a refused completion changed the stored data".into(), case()));
            }
            Ok(1)
        });
        // no character outside the alphanumeric ones is part of an account
        let strange: Vec<char> = (0x80..=0xffffu32).chain((0x1_0000..=0x1_ffff).step_by(if deep { 1 } else { 64 })).filter_map(char::from_u32).filter(|c| !c.is_alphanumeric()).collect();
        enumerate(rep, &format!("characters: {n}"), strange.len(), |i| {
            for t in [format!("cosmos1{}ica", strange[i]), format!("cosmos1ica{}", strange[i])] {
                let a = Act::OpenAck { ch: *ch, version: Meta { address: t, ..Meta::good(&x.conn, &x.cconn, "") }.text(), cpty_chan: "channel-141".into(), cb_ok: true };
                let (m, r) = step(w, &a);
                if r.accepted || m.store != w.store {
                    return Err((format!("a completion with the character {:?} in the account was accepted", strange[i]), json!({"state": n, "action": a})));
                }
            }
            Ok(2)
        });
        // the counterparty's channel id and every valid account are recorded exactly
        let ids = alpha::strings();
        enumerate(rep, &format!("counterparty ids: {n}"), ids.len(), |i| {
            let version = host_version(&w.chans[*ch], "cosmos1ica");
            let a = Act::OpenAck { ch: *ch, version, cpty_chan: ids[i].clone(), cb_ok: true };
            let (m, r) = step(w, &a);
            let case = || json!({"state": n, "action": a, "accepted": r.accepted, "error": r.err});
            if !r.accepted {
                return Err(("a valid completion was refused".into(), case()));
            }
            let (q, e) = (m.q_channel().map_err(|e| (e, case()))?, status_json(&m.chans[*ch]));
            if q != e {
                return Err((format!("the channel query reports {q}, negotiated was {e}"), case()));
            }
            Ok(1)
        });
        // the controller's own port must not be the host port
        enumerate(rep, &format!("controller port: {n}"), 2, |i| {
            let p = ["icahost".to_string(), port()][i].clone();
            let c = &w.chans[*ch];
            let chan = RawChan { port: p.clone(), id: c.id.clone(), cpty_port: c.cpty_port.clone(), cpty_chan: "channel-1".into(), order: c.order, version: c.version.clone(), conn: c.conn.clone() };
            let a = Act::OpenAckRaw { chan, version: host_version(c, "cosmos1ica") };
            let (_, r) = step(w, &a);
            if r.head_ok() != (i == 1) {
                return Err((format!("a completion on controller port {p} was {}", if r.head_ok() { "accepted" } else { "refused" }), json!({"state": n, "action": a})));
            }
            Ok(1)
        });
    }
    // in every life-cycle state: valid accepted, deviations refused, recorded exactly
    let devs = |c: &Chan| -> Vec<(String, bool)> {
        let v: Json = serde_json::from_str(&c.version).unwrap_or(Json::Null);
        let h = v["host_connection_id"].as_str().unwrap_or("connection-1").to_string();
        let g = Meta::good(&c.conn, &h, "cosmos1fresh");
        vec![
            (g.text(), true),
            (Meta { address: String::new(), ..g.clone() }.text(), false),
            (Meta { address: "cosmos1-".into(), ..g.clone() }.text(), false),
            (Meta { version: "ics27-2".into(), ..g.clone() }.text(), false),
            (Meta { ctrl: "connection-77".into(), ..g.clone() }.text(), false),
            (Meta { ctrl: h, ..g.clone() }.text(), false),
            (Meta { encoding: "proto3json".into(), ..g.clone() }.text(), false),
            (Meta { tx: "x".into(), ..g.clone() }.text(), false),
            (c.version.clone(), false),
            (String::new(), false),
        ]
    };
    let probe = |w: &World| {
        let mut v = vec![];
        if w.open_chan().is_none() {
            for (i, c) in w.chans.iter().enumerate().filter(|(_, c)| c.st == St::Init) {
                v.extend(devs(c).into_iter().map(|(version, _)| Act::OpenAck { ch: i, version, cpty_chan: w.cpty_id(i), cb_ok: true }));
            }
        }
        v
    };
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        if let Act::OpenAck { ch, version, cb_ok: true, .. } = a {
            if w.open_chan().is_none() {
                let want = !devs(&w.chans[*ch]).iter().any(|(v, ok)| !ok && v == version);
                chk(r.accepted == want, || format!("a handshake completion with {} metadata {version} was {} {}", if want { "valid" } else { "invalid" }, if r.accepted { "accepted" } else { "refused" }, r.err))?;
            }
            if r.accepted {
                let q = n.q_channel()?;
                let e = status_json(&n.chans[*ch]);
                chk(q == e, || format!("the channel query reports {q}, negotiated was {e}"))?;
                let q = n.q_state()?["ica_info"].clone();
                let e = json!({"ica_address": version_address(version), "channel_id": n.chans[*ch].id, "encoding": "proto3"});
                chk(q == e, || format!("the contract-state query reports {q}, negotiated was {e}"))?;
            }
        }
        Ok(())
    };
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b()), Some(opts_c())],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        timeouts: true,
        addrs: 2,
        max_chans: 3,
        max_sends: 1,
        migrate: true,
        ..Knobs::default()
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 11 } else { 9 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
}

pub fn c09(rep: &mut Report, deep: bool) {
    rep.bounds.push("up to 4 channels in succession or overlapping, lost by owner close, counterparty close, ordered timeout or never completed; reopened with stored or new options (4 option sets) and same or new account addresses; all histories of transactions up to the depth of each exploration".into());
    let valid = |o: &Opts| o.eff_port() == "icahost" && known_conn(&o.conn) && o.cconn.starts_with("connection-");
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        match a {
            Act::Exec { from, req: Req::Create(o), .. } if *from == w.ghost.owner && w.open_chan().is_none() => {
                let eff = o.clone().or(w.ghost.opts.clone()).unwrap();
                if valid(&eff) {
                    chk(r.accepted, || format!("no channel is open but the owner's create request was refused: {}", r.err))?;
                    chk(r.opened.len() == 1, || "no handshake was started".into())?;
                    let c = &n.chans[r.opened[0]];
                    let v: Json = serde_json::from_str(&c.version).unwrap_or(Json::Null);
                    let ok = c.conn == eff.conn && c.order == eff.eff_order() && c.cpty_port == eff.eff_port() && v["host_connection_id"] == json!(eff.cconn) && v["controller_connection_id"] == json!(eff.conn);
                    chk(ok, || format!("the channel was proposed as {c:?}, the options in force are {eff:?}"))?;
                }
            }
            Act::OpenAck { ch, cb_ok: true, version, .. } if w.open_chan().is_none() => {
                chk(r.accepted, || format!("no channel is open but completing the handshake of channel {ch} was refused: {}", r.err))?;
                let q = n.q_channel()?;
                let e = status_json(&n.chans[*ch]);
                chk(q == e, || format!("the channel query reports {q}, expected {e}"))?;
                let q = n.q_state()?["ica_info"]["ica_address"].clone();
                chk(q == json!(version_address(version)), || format!("the account is reported as {q} after completing with {version}"))?;
            }
            Act::Exec { from, req: req @ Req::Send { .. }, .. } if *from == w.ghost.owner => {
                if let Some(t) = tracked_open(w) {
                    if !signed(req) && !r.head_ok() {
                        return Ok(());
                    }
                    chk(r.accepted && r.sent.len() == 1, || format!("a send over the open channel was refused: {}", r.err))?;
                    let (ch, seq) = r.sent[0];
                    chk(ch == t, || format!("a packet was sent over channel {ch}, the open channel is {t}"))?;
                    let s = packet_signer(&n.chans[ch].packets[&seq].data);
                    chk(!signed(req) || s.as_deref() == Some(&w.ghost.ica), || format!("a packet acts for account {s:?}, the host returned {} for this channel", w.ghost.ica))?;
                }
            }
            _ => {}
        }
        Ok(())
    };
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None, Some(opts_b()), Some(opts_c())],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        timeouts: true,
        addrs: 2,
        migrate: true,
        max_chans: 4,
        max_sends: 3,
        ..Knobs::default()
    };
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let o = w.ghost.owner.clone();
        vec![
            exec(&o, Req::Create(None)),
            exec(&o, Req::Create(Some(opts_a()))),
            exec(&o, Req::Create(Some(opts_u()))),
            exec(&o, Req::Create(Some(opts_b()))),
            exec(&o, Req::Create(Some(opts_c()))),
            exec(&o, send1()),
        ]
    };
    explore(rep, &Cfg { name: "reopen".into(), root: World::new(Params::default()), depth: if deep { 12 } else { 10 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    // many times: one fixed option set, no branching on addresses
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), None)],
        creates: vec![None],
        close: true,
        close_confirm: true,
        sends: vec![send1()],
        timeouts: true,
        max_chans: 12,
        max_sends: 12,
        ..Knobs::default()
    };
    let serial = |w: &World| {
        let mut v = gen(&k, w);
        // one handshake at a time
        if w.chans.iter().any(|c| c.st != St::Closed) {
            v.retain(|a| !matches!(a, Act::Exec { req: Req::Create(_), .. }));
        }
        v
    };
    explore(rep, &Cfg { name: "many times".into(), root: World::new(Params::default()), depth: if deep { 26 } else { 18 }, gen: &serial, probe: &probe, mon: &mon });
    wide::everything(rep, deep, if deep { 8 } else { 7 }, false, &probe, &mon);
    wide::arguments(rep, deep, &mon);
}
