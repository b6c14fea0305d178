//! One module per group of properties; this file holds what they share.

use serde_json::{json, Value as Json};

use cosmwasm_std::{CosmosMsg, SubMsg, WasmMsg};

use crate::cases::{self, Want};
use crate::pb::{self, V};
use crate::world::*;

pub mod access;
pub mod callbacks;
pub mod channel;
pub mod general;
pub mod helpers;
pub mod interface;
pub mod migrate;
pub mod packets;
pub mod queries;
pub mod wide;

pub fn owner() -> String {
    addr("owner")
}

/// Optional fields are left out when `None`.
#[derive(Clone, Debug)]
pub struct Meta {
    pub version: String,
    pub ctrl: String,
    pub host: String,
    pub address: String,
    pub encoding: String,
    pub tx: String,
}
impl Meta {
    pub fn good(ctrl: &str, host: &str, address: &str) -> Self {
        Meta { version: "ics27-1".into(), ctrl: ctrl.into(), host: host.into(), address: address.into(), encoding: "proto3".into(), tx: "sdk_multi_msg".into() }
    }
    pub fn json(&self) -> Json {
        json!({"version": self.version, "controller_connection_id": self.ctrl, "host_connection_id": self.host,
               "address": self.address, "encoding": self.encoding, "tx_type": self.tx})
    }
    /// in the order the ICA host writes them
    pub fn text(&self) -> String {
        format!(
            "{{\"version\":{},\"controller_connection_id\":{},\"host_connection_id\":{},\"address\":{},\"encoding\":{},\"tx_type\":{}}}",
            json!(self.version),
            json!(self.ctrl),
            json!(self.host),
            json!(self.address),
            json!(self.encoding),
            json!(self.tx)
        )
    }
}

/// The version an honest host returns for a channel.
pub fn host_version(c: &Chan, ica: &str) -> String {
    let v: Json = serde_json::from_str(&c.version).unwrap_or(Json::Null);
    Meta::good(&c.conn, v["host_connection_id"].as_str().unwrap_or("connection-1"), ica).text()
}

pub fn cpty_id(i: usize) -> String {
    format!("channel-{}", 40 + i)
}

pub fn opts_a() -> Opts {
    Opts::new("connection-0", "connection-1", None, None)
}
pub fn opts_u() -> Opts {
    Opts::new("connection-0", "connection-1", None, Some(Ord_::Unordered))
}
pub fn opts_b() -> Opts {
    Opts::new("connection-12", "connection-3", Some("icahost"), Some(Ord_::Unordered))
}
pub fn opts_c() -> Opts {
    Opts::new("connection-12", "connection-5", None, Some(Ord_::Ordered))
}

pub fn inst(o: Opts, cb: Option<String>) -> Act {
    Act::Inst { from: addr("creator"), owner: Some(owner()), opts: o, cb }
}

pub fn exec(from: &str, req: Req) -> Act {
    Act::Exec { from: from.to_string(), funds: vec![], req, cb_ok: true }
}

pub fn send(msgs: Vec<u32>, queries: Vec<u32>) -> Req {
    Req::Send { msgs, queries, memo: None, timeout: None }
}
pub fn send1() -> Req {
    send(vec![cases::msg_id("bank_send")], vec![])
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AckK {
    Good,
    Error,
    /// an error without any text
    Blank,
    /// a success with one response too few (packets with queries only)
    Short,
    /// a success whose last typed response cannot be decoded (packets with typed queries only)
    Junk,
}

impl AckK {
    fn applies(self, p: &Pkt) -> bool {
        match self {
            AckK::Good | AckK::Error | AckK::Blank => true,
            AckK::Short => !p.queries.is_empty(),
            AckK::Junk => p.queries.iter().any(|q| cases::queries()[*q as usize].kind != "stargate"),
        }
    }
}

/// Which environment and owner actions are explored.
pub struct Knobs {
    pub insts: Vec<Act>,
    pub creates: Vec<Option<Opts>>,
    pub close: bool,
    pub close_confirm: bool,
    pub sends: Vec<Req>,
    pub acks: Vec<AckK>,
    pub timeouts: bool,
    pub cb_fail: bool,
    pub setcb: Vec<Option<String>>,
    pub transfers: Vec<(String, Option<Exp>)>,
    pub accepts: Vec<String>,
    pub max_chans: usize,
    pub max_inflight: usize,
    pub max_sends: u32,
    /// how many account addresses the host may choose from per channel
    pub addrs: usize,
    pub migrate: bool,
    pub advances: Vec<(u64, u64)>,
    pub max_adv: u64,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            insts: vec![inst(opts_a(), None)],
            creates: vec![],
            close: false,
            close_confirm: false,
            sends: vec![],
            acks: vec![],
            timeouts: false,
            cb_fail: false,
            setcb: vec![],
            transfers: vec![],
            accepts: vec![],
            max_chans: 2,
            max_inflight: 1,
            max_sends: 2,
            addrs: 1,
            migrate: false,
            advances: vec![],
            max_adv: 0,
        }
    }
}

pub fn ica_name(ch: usize, k: usize) -> String {
    if k == 0 {
        format!("cosmos1ica{ch}")
    } else {
        "cosmos1icasame".into()
    }
}

pub fn gen(k: &Knobs, w: &World) -> Vec<Act> {
    if !w.inst {
        return k.insts.clone();
    }
    let mut v = vec![];
    let o = w.ghost.owner.clone();
    if w.chans.len() < k.max_chans {
        for c in &k.creates {
            v.push(exec(&o, Req::Create(c.clone())));
        }
    }
    let cbs: &[bool] = if k.cb_fail && w.ghost.cb.is_some() { &[true, false] } else { &[true] };
    for (i, c) in w.chans.iter().enumerate() {
        if c.st == St::Init {
            for a in 0..k.addrs {
                for cb_ok in cbs {
                    v.push(Act::OpenAck { ch: i, version: host_version(c, &ica_name(i, a)), cpty_chan: w.cpty_id(i), cb_ok: *cb_ok });
                }
            }
        }
        if c.st == St::Open && k.close_confirm {
            v.push(Act::CloseConfirm { ch: i });
        }
        for seq in c.packets.keys() {
            if c.st == St::Open && (c.order == Ord_::Unordered || *seq == c.next_ack) || w.p.loose && c.st != St::Init {
                for a in k.acks.iter().filter(|a| a.applies(&c.packets[seq])) {
                    for cb_ok in cbs {
                        v.push(Act::Ack { ch: i, seq: *seq, ack: ack_for(&c.packets[seq], *a), relayer: addr("relayer"), cb_ok: *cb_ok });
                    }
                }
            }
            if c.st != St::Init && k.timeouts {
                for cb_ok in cbs {
                    v.push(Act::Timeout { ch: i, seq: *seq, relayer: addr("relayer"), cb_ok: *cb_ok });
                }
            }
        }
    }
    if k.close {
        v.push(exec(&o, Req::Close));
    }
    if w.inflight() < k.max_inflight && w.ghost.sends < k.max_sends {
        for s in &k.sends {
            v.push(exec(&o, s.clone()));
        }
    }
    for c in &k.setcb {
        v.push(exec(&o, Req::SetCb(c.clone())));
    }
    for (to, exp) in &k.transfers {
        v.push(exec(&o, Req::Transfer { to: to.clone(), exp: *exp }));
    }
    for a in &k.accepts {
        v.push(exec(a, Req::Accept));
    }
    if w.height - w.p.h0 < k.max_adv {
        for (s, b) in &k.advances {
            v.push(Act::Advance { secs: *s, blocks: *b });
        }
    }
    if k.migrate {
        v.push(Act::MigrateFrom { contract: "crates.io:cw-ica-controller".into(), version: "0.1.0".into(), json_encoding: false });
    }
    v
}

/// Every kind of step at once: shorter histories than the explorations made for one property, but
/// over the whole alphabet.
pub fn everything() -> Knobs {
    let q = cases::query_id("balance");
    Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1"))), Act::Inst { from: addr("creator"), owner: None, opts: opts_b(), cb: Some(addr("creator")) }],
        creates: vec![None, Some(opts_b()), Some(opts_a())],
        close: true,
        close_confirm: true,
        sends: vec![send1(), send(vec![], vec![q]), Req::Send { msgs: vec![cases::msg_id("bank_send"), cases::msg_id("stargate")], queries: vec![q, cases::query_id("wasm_smart")], memo: Some("m".into()), timeout: Some(60) }],
        acks: vec![AckK::Good, AckK::Error, AckK::Blank, AckK::Short],
        timeouts: true,
        cb_fail: true,
        setcb: vec![None, Some(addr("cb2"))],
        transfers: vec![(addr("heir"), Some(Exp::Height(1001)))],
        accepts: vec![addr("heir")],
        max_chans: 2,
        max_inflight: 2,
        max_sends: 2,
        addrs: 2,
        migrate: true,
        advances: vec![(6, 1)],
        max_adv: 1,
    }
}

/// The chain in detached mode.
pub fn detached_root() -> World {
    World::new(Params { detached: true, ..Params::default() })
}

/// As `gen`, for the detached mode: requested handshake starts and closes are delivered as
/// separate steps, at most one of each being outstanding.
pub fn gen_detached(k: &Knobs, w: &World) -> Vec<Act> {
    let mut v = gen(k, w);
    if let (true, Some(o)) = (w.ghost.open_credit > 0, &w.ghost.opts) {
        v.retain(|a| !matches!(a, Act::Exec { req: Req::Create(_), .. }));
        v.push(Act::RelayInit(channel::raw(o, &channel::init_version(o))));
        // the proposed metadata may be left to the controller
        v.push(Act::RelayInit(channel::raw(o, "")));
    }
    if let (true, Some(ch)) = (w.ghost.close_credit > 0, w.ghost.tracked) {
        v.retain(|a| !matches!(a, Act::Exec { req: Req::Close, .. }));
        v.push(Act::CloseInit { ch });
    }
    v
}

// ---------------------------------------------------------------------------------------------
// acknowledgements

pub fn query_resp_any(height: u64, resps: &[Vec<u8>]) -> Vec<u8> {
    let mut f = vec![];
    if height != 0 {
        f.push((1, V::U(height)));
    }
    f.extend(resps.iter().map(|r| (2, V::B(r.clone()))));
    pb::enc(&f)
}

pub fn tx_msg_data(responses: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let f = responses
        .iter()
        .map(|(t, v)| {
            let mut a = vec![(1, V::B(t.as_bytes().to_vec()))];
            if !v.is_empty() {
                a.push((2, V::B(v.clone())));
            }
            (2, V::M(a))
        })
        .collect();
    pb::enc(&f)
}

pub const QRESP: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse";

/// The result bytes an honest host returns for a packet with the given number of messages and
/// the given query responses.
pub fn result_bytes(n_msgs: usize, queries: Option<(u64, &[Vec<u8>])>) -> Vec<u8> {
    let mut r: Vec<(&str, Vec<u8>)> = (0..n_msgs).map(|i| ("/cosmos.bank.v1beta1.MsgSendResponse", if i % 2 == 0 { vec![] } else { vec![0x12, 1, 7] })).collect();
    if let Some((h, q)) = queries {
        r.push((QRESP, query_resp_any(h, q)));
    }
    tx_msg_data(&r)
}

pub fn ack_result(bytes: &[u8]) -> Vec<u8> {
    json!({"result": b64(bytes)}).to_string().into_bytes()
}
pub fn ack_error(e: &str) -> Vec<u8> {
    json!({"error": e}).to_string().into_bytes()
}

/// A canned response for a query, distinguishable per kind, with its expected rendering.
pub fn canned(q: u32) -> (Vec<u8>, Json) {
    let c = &cases::queries()[q as usize];
    if c.kind == "stargate" {
        let d = vec![0x0a, 2, b'h', b'i', 0xff];
        return (d.clone(), json!({"stargate": {"data": b64(&d), "path": c.expect.as_ref().unwrap().0}}));
    }
    let r = cases::resps().iter().find(|r| r.kind == c.kind && r.core).unwrap_or_else(|| panic!("no response for {}", c.kind));
    match &r.want {
        Want::Json(j) => (r.bytes.clone(), j.clone()),
        _ => panic!("canned response of {} is not a success", c.kind),
    }
}

pub const ERR_TEXT: &str = "ABCI code: 5: error handling packet: channel-0 closed: timeout: unauthorized: see events for details";

pub fn height_of(p: &Pkt) -> u64 {
    4242 + u64::from(p.nth)
}

pub fn ack_for(p: &Pkt, k: AckK) -> Vec<u8> {
    match k {
        AckK::Error => ack_error(ERR_TEXT),
        AckK::Blank => ack_error(""),
        AckK::Good | AckK::Short | AckK::Junk => {
            let mut r: Vec<Vec<u8>> = p.queries.iter().map(|q| canned(*q).0).collect();
            match k {
                AckK::Short => {
                    r.pop();
                }
                AckK::Junk => {
                    if let Some(i) = p.queries.iter().rposition(|q| cases::queries()[*q as usize].kind != "stargate") {
                        r[i] = vec![0x0a, 0x7f, 1];
                    }
                }
                _ => {}
            }
            ack_result(&result_bytes(p.msgs.len(), (!p.queries.is_empty()).then_some((height_of(p), r.as_slice()))))
        }
    }
}

/// What the callback of such an acknowledgement must report about the queries. The text of an
/// error is not prescribed.
pub fn want_query_result(p: &Pkt, ack: &[u8]) -> Option<Json> {
    if p.queries.is_empty() {
        return None;
    }
    if ack == ack_for(p, AckK::Good).as_slice() {
        let r: Vec<Json> = p.queries.iter().map(|q| canned(*q).1).collect();
        Some(json!({"success": {"height": height_of(p), "responses": r}}))
    } else {
        Some(json!({"error": "*"}))
    }
}

// ---------------------------------------------------------------------------------------------
// observations

pub struct Cb {
    pub to: String,
    pub msg: Json,
    pub funds: usize,
    pub gas: Option<u64>,
}

/// Execute messages to other contracts among the given ones.
pub fn callbacks(msgs: &[&SubMsg]) -> Vec<Cb> {
    msgs.iter()
        .filter_map(|m| match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => Some(Cb {
                to: contract_addr.clone(),
                msg: serde_json::from_slice(msg).unwrap_or(Json::Null),
                funds: funds.len(),
                gas: m.gas_limit,
            }),
            _ => None,
        })
        .collect()
}

pub fn chk(c: bool, e: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(e())
    }
}

pub fn same_query_result(want: &Option<Json>, got: Option<&Json>) -> Result<(), String> {
    let got = got.filter(|g| !g.is_null());
    match (want, got) {
        (None, None) => Ok(()),
        (None, Some(g)) => Err(format!("a query result is reported for a packet without queries: {g}")),
        (Some(w), None) => Err(format!("no query result is reported, expected {w}")),
        (Some(w), Some(g)) => {
            if w.get("error").is_some() {
                chk(g.get("error").is_some_and(Json::is_string), || format!("expected an error result, got {g}"))
            } else {
                chk(w == g, || format!("expected query result {w}, got {g}"))
            }
        }
    }
}
