//! The closed environment in which the real contract runs: a wasmd-like transaction processor and
//! an ibc-go-like channel / packet core.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, OnceLock};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, Addr, Attribute, Binary, BlockInfo, Coin, ContractInfo, CosmosMsg, Deps, DepsMut,
    Empty, Env, Event, IbcAcknowledgement, IbcChannel, IbcChannelCloseMsg, IbcChannelConnectMsg,
    IbcChannelOpenMsg, IbcEndpoint, IbcMsg, IbcOrder, IbcPacket, IbcPacketAckMsg,
    IbcPacketReceiveMsg, IbcPacketTimeoutMsg, IbcTimeout, IbcTimeoutBlock, MessageInfo,
    MsgResponse, Order, Querier, QuerierResult, QuerierWrapper, Record, Reply, ReplyOn, Storage,
    SubMsg, SubMsgResponse, SubMsgResult, SystemError, Timestamp, TransactionInfo, WasmMsg,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use cw_ica_controller::{contract, ibc};

use crate::cases;
use crate::pb;

// ---------------------------------------------------------------------------------------------
// storage

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Store(pub Arc<BTreeMap<Vec<u8>, Vec<u8>>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let s = start.map(<[u8]>::to_vec);
        let e = end.map(<[u8]>::to_vec);
        let mut v: Vec<Record> = self
            .0
            .iter()
            .filter(|(k, _)| s.as_ref().map_or(true, |s| *k >= s) && e.as_ref().map_or(true, |e| *k < e))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!value.is_empty(), "empty value in storage");
        Arc::make_mut(&mut self.0).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        if self.0.contains_key(key) {
            Arc::make_mut(&mut self.0).remove(key);
        }
    }
}

pub struct NoQuerier;
impl Querier for NoQuerier {
    fn raw_query(&self, _bin: &[u8]) -> QuerierResult {
        QuerierResult::Err(SystemError::Unknown {})
    }
}

// ---------------------------------------------------------------------------------------------
// addresses

pub fn addr(name: &'static str) -> String {
    static T: OnceLock<std::sync::Mutex<BTreeMap<&'static str, String>>> = OnceLock::new();
    let t = T.get_or_init(Default::default);
    t.lock()
        .unwrap()
        .entry(name)
        .or_insert_with(|| MockApi::default().addr_make(name).to_string())
        .clone()
}
pub fn contract_addr() -> String {
    addr("controller")
}
pub fn port() -> String {
    format!("wasm.{}", contract_addr())
}

// ---------------------------------------------------------------------------------------------
// core state

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Ord_ {
    Ordered,
    Unordered,
}
impl Ord_ {
    pub fn std(self) -> IbcOrder {
        match self {
            Ord_::Ordered => IbcOrder::Ordered,
            Ord_::Unordered => IbcOrder::Unordered,
        }
    }
    pub fn json(self) -> &'static str {
        match self {
            Ord_::Ordered => "ORDER_ORDERED",
            Ord_::Unordered => "ORDER_UNORDERED",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum St {
    Init,
    Open,
    Closed,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Pkt {
    pub data: Vec<u8>,
    pub ts: u64,
    pub block: Option<(u64, u64)>,
    /// ghost: what the owner asked for in this packet
    pub msgs: Vec<u32>,
    pub queries: Vec<u32>,
    /// ghost: which accepted send this was
    pub nth: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Chan {
    pub id: String,
    pub port: String,
    pub st: St,
    pub order: Ord_,
    pub conn: String,
    pub cpty_port: String,
    pub cpty_chan: String,
    pub version: String,
    pub next_seq: u64,
    pub next_ack: u64,
    pub packets: BTreeMap<u64, Pkt>,
}

impl Chan {
    pub fn ibc(&self) -> IbcChannel {
        IbcChannel::new(
            IbcEndpoint { port_id: self.port.clone(), channel_id: self.id.clone() },
            IbcEndpoint { port_id: self.cpty_port.clone(), channel_id: self.cpty_chan.clone() },
            self.order.std(),
            self.version.clone(),
            self.conn.clone(),
        )
    }
    pub fn json(&self) -> Json {
        json!({
            "endpoint": {"port_id": self.port, "channel_id": self.id},
            "counterparty_endpoint": {"port_id": self.cpty_port, "channel_id": self.cpty_chan},
            "order": self.order.json(),
            "version": self.version,
            "connection_id": self.conn,
        })
    }
    pub fn packet(&self, seq: u64) -> IbcPacket {
        let p = &self.packets[&seq];
        mk_packet(&self.port, &self.id, &self.cpty_port, &self.cpty_chan, seq, &p.data, p.ts, p.block)
    }
    pub fn packet_json(&self, seq: u64) -> Json {
        let p = &self.packets[&seq];
        mk_packet_json(&self.port, &self.id, &self.cpty_port, &self.cpty_chan, seq, &p.data, p.ts, p.block)
    }
}

#[allow(clippy::too_many_arguments)]
pub fn mk_packet(sp: &str, sc: &str, dp: &str, dc: &str, seq: u64, data: &[u8], ts: u64, block: Option<(u64, u64)>) -> IbcPacket {
    let t = match (block, ts) {
        (Some((r, h)), 0) => IbcTimeout::with_block(IbcTimeoutBlock { revision: r, height: h }),
        (Some((r, h)), t) => IbcTimeout::with_both(IbcTimeoutBlock { revision: r, height: h }, Timestamp::from_nanos(t)),
        (None, t) => IbcTimeout::with_timestamp(Timestamp::from_nanos(t)),
    };
    IbcPacket::new(
        data.to_vec(),
        IbcEndpoint { port_id: sp.into(), channel_id: sc.into() },
        IbcEndpoint { port_id: dp.into(), channel_id: dc.into() },
        seq,
        t,
    )
}
#[allow(clippy::too_many_arguments)]
pub fn mk_packet_json(sp: &str, sc: &str, dp: &str, dc: &str, seq: u64, data: &[u8], ts: u64, block: Option<(u64, u64)>) -> Json {
    let t = match (block, ts) {
        (Some((r, h)), 0) => json!({"block": {"revision": r, "height": h}, "timestamp": null}),
        (Some((r, h)), t) => json!({"block": {"revision": r, "height": h}, "timestamp": t.to_string()}),
        (None, t) => json!({"block": null, "timestamp": t.to_string()}),
    };
    json!({
        "data": b64(data),
        "src": {"port_id": sp, "channel_id": sc},
        "dest": {"port_id": dp, "channel_id": dc},
        "sequence": seq,
        "timeout": t,
    })
}

pub fn b64(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 {
            if k <= c.len() {
                o.push(T[((n >> (18 - 6 * k)) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// actions

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub conn: String,
    pub cconn: String,
    pub port: Option<String>,
    pub order: Option<Ord_>,
}
impl Opts {
    pub fn new(conn: &str, cconn: &str, port: Option<&str>, order: Option<Ord_>) -> Self {
        Opts { conn: conn.into(), cconn: cconn.into(), port: port.map(Into::into), order }
    }
    pub fn json(&self) -> Json {
        let mut v = json!({"connection_id": self.conn, "counterparty_connection_id": self.cconn});
        // absent options are rendered as null or left out, depending on the other one
        match (&self.port, self.order) {
            (None, None) => {}
            (p, o) => {
                v["counterparty_port_id"] = json!(p);
                v["channel_ordering"] = json!(o.map(Ord_::json));
            }
        }
        v
    }
    pub fn eff_port(&self) -> String {
        self.port.clone().unwrap_or_else(|| "icahost".into())
    }
    pub fn eff_order(&self) -> Ord_ {
        self.order.unwrap_or(Ord_::Ordered)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Exp {
    Height(u64),
    Time(u64),
    Never,
}
impl Exp {
    pub fn json(self) -> Json {
        match self {
            Exp::Height(h) => json!({"at_height": h}),
            Exp::Time(t) => json!({"at_time": t.to_string()}),
            Exp::Never => json!({"never": {}}),
        }
    }
    pub fn expired(self, w: &World) -> bool {
        match self {
            Exp::Height(h) => w.height >= h,
            Exp::Time(t) => w.time >= t,
            Exp::Never => false,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Req {
    Create(Option<Opts>),
    Close,
    Send { msgs: Vec<u32>, queries: Vec<u32>, memo: Option<String>, timeout: Option<u64> },
    SetCb(Option<String>),
    Transfer { to: String, exp: Option<Exp> },
    Accept,
    Renounce,
    Raw(String),
}

impl Req {
    pub fn json(&self) -> Json {
        match self {
            Req::Create(None) => json!({"create_channel": {}}),
            Req::Create(Some(o)) => json!({"create_channel": {"channel_open_init_options": o.json()}}),
            Req::Close => json!({"close_channel": {}}),
            Req::Send { msgs, queries, memo, timeout } => {
                let mut v = json!({"messages": msgs.iter().map(|i| cases::msgs()[*i as usize].json.clone()).collect::<Vec<_>>()});
                if !queries.is_empty() {
                    v["queries"] = queries.iter().map(|i| cases::queries()[*i as usize].json.clone()).collect::<Vec<_>>().into();
                }
                if let Some(m) = memo {
                    v["packet_memo"] = json!(m);
                }
                if let Some(t) = timeout {
                    v["timeout_seconds"] = json!(t);
                }
                json!({"send_cosmos_msgs": v})
            }
            Req::SetCb(a) => json!({"update_callback_address": {"callback_address": a}}),
            Req::Transfer { to, exp } => {
                let mut v = json!({"new_owner": to});
                if let Some(e) = exp {
                    v["expiry"] = e.json();
                }
                json!({"update_ownership": {"transfer_ownership": v}})
            }
            Req::Accept => json!({"update_ownership": "accept_ownership"}),
            Req::Renounce => json!({"update_ownership": "renounce_ownership"}),
            Req::Raw(s) => serde_json::from_str(s).unwrap_or(Json::Null),
        }
    }
}

/// A channel as named in a relayer's message that has no record in the core.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct RawChan {
    pub port: String,
    pub id: String,
    pub cpty_port: String,
    pub cpty_chan: String,
    pub order: Ord_,
    pub version: String,
    pub conn: String,
}
impl RawChan {
    pub fn ibc(&self) -> IbcChannel {
        IbcChannel::new(
            IbcEndpoint { port_id: self.port.clone(), channel_id: self.id.clone() },
            IbcEndpoint { port_id: self.cpty_port.clone(), channel_id: self.cpty_chan.clone() },
            self.order.std(),
            self.version.clone(),
            self.conn.clone(),
        )
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Act {
    Inst { from: String, owner: Option<String>, opts: Opts, cb: Option<String> },
    Exec { from: String, funds: Vec<(String, u128)>, req: Req, cb_ok: bool },
    /// handshake start submitted directly to the chain by a relayer (or, in detached mode,
    /// the delivery of a pending one); the core allocates the channel id
    RelayInit(RawChan),
    RelayTry(RawChan, String),
    RelayConfirm(RawChan),
    /// OpenAck for the nth channel (must be INIT in the core)
    OpenAck { ch: usize, version: String, cpty_chan: String, cb_ok: bool },
    /// OpenAck with no record in the core
    OpenAckRaw { chan: RawChan, version: String },
    CloseInit { ch: usize },
    CloseConfirm { ch: usize },
    CloseRaw { init: bool, chan: RawChan },
    Recv { port: String, ch: String, data: Vec<u8> },
    Ack { ch: usize, seq: u64, ack: Vec<u8>, relayer: String, cb_ok: bool },
    Timeout { ch: usize, seq: u64, relayer: String, cb_ok: bool },
    /// arbitrary reply
    Reply { id: u64, ok: bool, data: Option<Vec<u8>> },
    /// the request's own call is executed, none of its messages, and then the contract gets a
    /// reply it did not ask for (the id is `off` above every id it asked for)
    Interrupted { from: String, req: Req, off: u64, ok: bool, data: Option<Vec<u8>> },
    Advance { secs: u64, blocks: u64 },
    /// stands for `by` packets without queries sent and settled on this channel
    Jump { ch: usize, by: u64 },
    /// the chain holds an installation with this recorded name and version (environment);
    /// then it is migrated to the current code
    MigrateFrom { contract: String, version: String, json_encoding: bool },
    Noop,
}

// ---------------------------------------------------------------------------------------------
// world

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Ghost {
    pub creator: String,
    pub owner: String,
    pub pending: Option<String>,
    pub expiry: Option<Exp>,
    pub cb: Option<String>,
    pub opts: Option<Opts>,
    /// index of the most recently completed channel
    pub tracked: Option<usize>,
    pub ica: String,
    pub sends: u32,
    /// handshake starts authorised minus handshake starts accepted (detached mode)
    pub open_credit: i32,
    pub close_credit: i32,
    /// property specific
    pub extra: u64,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Params {
    /// the core accepts any connection id and port in a channel proposal
    pub lax: bool,
    pub chan_names: Vec<String>,
    pub seq_base: Vec<u64>,
    pub detached: bool,
    pub twin: bool,
    pub t0: u64,
    pub h0: u64,
    pub tx_index: Option<u32>,
    pub chain_id: String,
    pub inst_funds: Vec<(String, u128)>,
    /// the same contract on another chain, which receives the same actions as they would be there
    pub mirror: Option<Box<Params>>,
    /// over-approximation of the core: packets may be sent and acknowledged over closed channels,
    /// and acknowledged out of order on ordered ones; all counterparty channels have the same id
    /// (as on different host chains), which is also that of the first channel
    pub loose: bool,
}
impl Default for Params {
    fn default() -> Self {
        Params {
            lax: false,
            // one is a prefix or a suffix of another
            chan_names: [0, 10, 100, 101, 110, 1010, 1100, 1101, 10_100, 11_010, 11_011, 110_110].iter().map(|i| format!("channel-{i}")).collect(),
            seq_base: vec![1; 12],
            detached: false,
            twin: false,
            t0: 1_700_000_000_123_456_789,
            h0: 1000,
            tx_index: Some(3),
            chain_id: "ctrl-1".into(),
            inst_funds: vec![],
            mirror: None,
            loose: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct World {
    pub p: Arc<Params>,
    pub store: Store,
    pub chans: Vec<Chan>,
    pub time: u64,
    pub height: u64,
    pub inst: bool,
    pub ghost: Ghost,
    /// a second contract that receives the same actions except everything about packets
    pub twin: Option<Box<World>>,
}

impl World {
    pub fn new(p: Params) -> Self {
        let twin = p.twin;
        let p = Arc::new(p);
        let mut w = World {
            store: Store::default(),
            chans: vec![],
            time: p.t0,
            height: p.h0,
            inst: false,
            ghost: Ghost::default(),
            twin: None,
            p,
        };
        if twin {
            w.twin = Some(Box::new(w.clone()));
        }
        if let Some(m) = &w.p.mirror {
            w.twin = Some(Box::new(World::new((**m).clone())));
        }
        w
    }
    /// The counterparty's identifier for the nth channel.
    pub fn cpty_id(&self, i: usize) -> String {
        if self.p.loose {
            self.p.chan_names[0].clone()
        } else {
            format!("channel-{}", 40 + i)
        }
    }
    /// The same chain under the looser core.
    pub fn loosened(&self) -> Self {
        let mut w = self.clone();
        w.p = Arc::new(Params { loose: true, ..(*self.p).clone() });
        if let Some(t) = &mut w.twin {
            t.p = Arc::new(Params { loose: true, ..(*t.p).clone() });
        }
        w
    }
    pub fn key(&self) -> u128 {
        use std::hash::Hasher;
        let mut a = std::collections::hash_map::DefaultHasher::new();
        let mut b = std::collections::hash_map::DefaultHasher::new();
        b.write_u64(0x9e37_79b9_7f4a_7c15);
        for h in [&mut a, &mut b] {
            self.store.hash(h);
            self.chans.hash(h);
            self.time.hash(h);
            self.height.hash(h);
            self.inst.hash(h);
            self.ghost.hash(h);
            if let Some(t) = &self.twin {
                t.store.hash(h);
            }
        }
        (u128::from(a.finish()) << 64) | u128::from(b.finish())
    }
    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time),
                chain_id: self.p.chain_id.clone(),
            },
            transaction: self.p.tx_index.map(|index| TransactionInfo { index }),
            contract: ContractInfo { address: Addr::unchecked(contract_addr()) },
        }
    }
    pub fn query(&self, msg: &str) -> Result<Json, String> {
        let api = MockApi::default();
        let q = NoQuerier;
        let deps = Deps { storage: &self.store, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
        let m = from_json(msg.as_bytes()).map_err(|e| e.to_string())?;
        let r = guard(|| contract::query(deps, self.env(), m))?;
        serde_json::from_slice(&r).map_err(|e| e.to_string())
    }
    pub fn q_channel(&self) -> Result<Json, String> {
        self.query(r#"{"get_channel":{}}"#)
    }
    pub fn q_state(&self) -> Result<Json, String> {
        self.query(r#"{"get_contract_state":{}}"#)
    }
    pub fn q_owner(&self) -> Result<Json, String> {
        self.query(r#"{"ownership":{}}"#)
    }
    pub fn open_chan(&self) -> Option<usize> {
        self.chans.iter().position(|c| c.st == St::Open)
    }
    pub fn inflight(&self) -> usize {
        self.chans.iter().map(|c| c.packets.len()).sum()
    }
}

// ---------------------------------------------------------------------------------------------
// records of a step

#[derive(Clone, Debug)]
pub struct Call {
    pub entry: &'static str,
    pub ok: bool,
    pub err: String,
    pub msgs: Vec<SubMsg>,
    pub attrs: Vec<Attribute>,
    pub events: Vec<Event>,
    pub data: Option<Binary>,
    pub version: Option<String>,
    pub chan: String,
}

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub accepted: bool,
    pub err: String,
    pub calls: Vec<Call>,
    /// (channel index, sequence) of packets committed by this transaction
    pub sent: Vec<(usize, u64)>,
    pub opened: Vec<usize>,
    pub closed: Vec<String>,
}

impl Rec {
    /// the entry point reached first
    pub fn head_ok(&self) -> bool {
        self.calls.first().is_some_and(|c| c.ok)
    }
    pub fn head(&self) -> Option<&Call> {
        self.calls.first()
    }
    /// every message emitted by any call of this transaction
    pub fn all_msgs(&self) -> Vec<&SubMsg> {
        self.calls.iter().flat_map(|c| c.msgs.iter()).collect()
    }
    pub fn n_ok(&self, entry: &str) -> usize {
        self.calls.iter().filter(|c| c.entry == entry && c.ok).count()
    }
}

thread_local! {
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn guard<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

struct Norm {
    msgs: Vec<SubMsg>,
    attrs: Vec<Attribute>,
    events: Vec<Event>,
    data: Option<Binary>,
    version: Option<String>,
}
impl From<cosmwasm_std::Response> for Norm {
    fn from(r: cosmwasm_std::Response) -> Self {
        Norm { msgs: r.messages, attrs: r.attributes, events: r.events, data: r.data, version: None }
    }
}
impl From<cosmwasm_std::IbcBasicResponse> for Norm {
    fn from(r: cosmwasm_std::IbcBasicResponse) -> Self {
        Norm { msgs: r.messages, attrs: r.attributes, events: r.events, data: None, version: None }
    }
}
impl From<cosmwasm_std::IbcReceiveResponse> for Norm {
    fn from(r: cosmwasm_std::IbcReceiveResponse) -> Self {
        Norm { msgs: r.messages, attrs: r.attributes, events: r.events, data: r.acknowledgement, version: None }
    }
}
impl From<cosmwasm_std::IbcChannelOpenResponse> for Norm {
    fn from(r: cosmwasm_std::IbcChannelOpenResponse) -> Self {
        Norm { msgs: vec![], attrs: vec![], events: vec![], data: None, version: r.map(|x| x.version) }
    }
}

/// Calls one entry point; a failure restores the storage.
fn call<T: Into<Norm>, E: std::fmt::Display>(
    w: &mut World,
    rec: &mut Rec,
    entry: &'static str,
    chan: &str,
    f: impl FnOnce(DepsMut, Env) -> Result<T, E>,
) -> Result<usize, String> {
    let api = MockApi::default();
    let q = NoQuerier;
    let mut st = w.store.clone();
    let env = w.env();
    let r = guard(|| {
        f(DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::<Empty>::new(&q) }, env)
    });
    let mut c = Call {
        entry,
        ok: false,
        err: String::new(),
        msgs: vec![],
        attrs: vec![],
        events: vec![],
        data: None,
        version: None,
        chan: chan.to_string(),
    };
    match r {
        Ok(x) => {
            w.store = st;
            let n: Norm = x.into();
            c.ok = true;
            c.msgs = n.msgs;
            c.attrs = n.attrs;
            c.events = n.events;
            c.data = n.data;
            c.version = n.version;
            rec.calls.push(c);
            Ok(rec.calls.len() - 1)
        }
        Err(e) => {
            c.err = e.clone();
            rec.calls.push(c);
            Err(e)
        }
    }
}

struct Ctx<'a> {
    cb_ok: bool,
    req: Option<&'a Req>,
}

fn run(w: &mut World, rec: &mut Rec, idx: usize, cx: &Ctx, depth: usize) -> Result<(), String> {
    if depth > 8 {
        return Err("call depth".into());
    }
    let msgs = rec.calls[idx].msgs.clone();
    for sm in &msgs {
        let snap = w.clone();
        match dispatch(w, rec, &sm.msg, cx, depth) {
            Ok((data, ty)) => {
                if matches!(sm.reply_on, ReplyOn::Success | ReplyOn::Always) {
                    #[allow(deprecated)]
                    let resp = SubMsgResponse {
                        events: vec![],
                        data: data.clone().map(Into::into),
                        msg_responses: data.map(|d| vec![MsgResponse { type_url: ty, value: d.into() }]).unwrap_or_default(),
                    };
                    let rp = Reply { id: sm.id, payload: sm.payload.clone(), gas_used: 1234, result: SubMsgResult::Ok(resp) };
                    let i = call(w, rec, "reply", "", |d, e| contract::reply(d, e, rp))?;
                    run(w, rec, i, cx, depth + 1)?;
                }
            }
            Err(e) => {
                if matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always) {
                    *w = snap;
                    let rp = Reply { id: sm.id, payload: sm.payload.clone(), gas_used: 1234, result: SubMsgResult::Err(e) };
                    let i = call(w, rec, "reply", "", |d, e| contract::reply(d, e, rp))?;
                    run(w, rec, i, cx, depth + 1)?;
                } else {
                    return Err(e);
                }
            }
        }
    }
    Ok(())
}

pub fn known_conn(c: &str) -> bool {
    c.strip_prefix("connection-").is_some_and(|n| !n.is_empty() && n.len() < 4 && n.bytes().all(|b| b.is_ascii_digit()))
}

/// The core's handling of a handshake start (from the contract's message or from a relayer).
fn core_open_init(w: &mut World, rec: &mut Rec, c: RawChan, cx: &Ctx, depth: usize) -> Result<(), String> {
    let n = w.chans.len();
    let id = w.p.chan_names.get(n).cloned().unwrap_or_else(|| format!("channel-{}", n + 200_000));
    let mut ch = Chan {
        id: id.clone(),
        port: c.port,
        st: St::Init,
        order: c.order,
        conn: c.conn,
        cpty_port: c.cpty_port,
        cpty_chan: String::new(),
        version: c.version,
        next_seq: w.p.seq_base.get(n).copied().unwrap_or(1),
        next_ack: w.p.seq_base.get(n).copied().unwrap_or(1),
        packets: BTreeMap::new(),
    };
    let m = IbcChannelOpenMsg::new_init(ch.ibc());
    let i = call(w, rec, "open_init", &id, |d, e| ibc::handshake::ibc_channel_open(d, e, m))?;
    if let Some(v) = &rec.calls[i].version {
        ch.version = v.clone();
    }
    w.chans.push(ch);
    rec.opened.push(n);
    run(w, rec, i, cx, depth + 1)
}

fn core_close_init(w: &mut World, rec: &mut Rec, n: usize, cx: &Ctx, depth: usize) -> Result<(), String> {
    if w.chans[n].st == St::Closed {
        return Err("core: channel closed".into());
    }
    let id = w.chans[n].id.clone();
    let m = IbcChannelCloseMsg::new_init(w.chans[n].ibc());
    let i = call(w, rec, "close_init", &id, |d, e| ibc::handshake::ibc_channel_close(d, e, m))?;
    w.chans[n].st = St::Closed;
    rec.closed.push(id);
    run(w, rec, i, cx, depth + 1)
}

/// Reads a MsgChannelOpenInit off the wire.
pub fn parse_open_init(value: &[u8]) -> Result<(RawChan, String, u64), String> {
    let f = pb::dec(value).ok_or("bad MsgChannelOpenInit")?;
    let ch = pb::dec(pb::get_b(&f, 2)).ok_or("bad channel")?;
    let cp = pb::dec(pb::get_b(&ch, 3)).ok_or("bad counterparty")?;
    let hops = pb::get_rep(&ch, 4);
    if hops.len() != 1 {
        return Err("core: connection hops".into());
    }
    Ok((
        RawChan {
            port: pb::get_s(&f, 1),
            id: String::new(),
            cpty_port: pb::get_s(&cp, 1),
            cpty_chan: pb::get_s(&cp, 2),
            order: match pb::get_u(&ch, 2) {
                1 => Ord_::Unordered,
                2 => Ord_::Ordered,
                _ => return Err("core: ordering".into()),
            },
            version: pb::get_s(&ch, 5),
            conn: String::from_utf8_lossy(&hops[0]).into_owned(),
        },
        pb::get_s(&f, 3),
        pb::get_u(&ch, 1),
    ))
}

#[allow(deprecated)]
fn dispatch(w: &mut World, rec: &mut Rec, m: &CosmosMsg, cx: &Ctx, depth: usize) -> Result<(Option<Vec<u8>>, String), String> {
    match m {
        CosmosMsg::Stargate { type_url, value } if type_url == "/ibc.core.channel.v1.MsgChannelOpenInit" => {
            let (c, signer, st) = parse_open_init(value)?;
            if signer != contract_addr() || c.port != port() {
                return Err("core: port not owned by signer".into());
            }
            if st != 1 || !c.cpty_chan.is_empty() || !(w.p.lax || known_conn(&c.conn)) {
                return Err("core: invalid channel open init".into());
            }
            w.ghost.open_credit += 1;
            if !w.p.detached {
                core_open_init(w, rec, c, cx, depth)?;
                w.ghost.open_credit -= 1;
            }
            Ok((None, String::new()))
        }
        CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id }) => {
            let n = w.chans.iter().position(|c| c.id == *channel_id && c.port == port()).ok_or("core: no channel")?;
            w.ghost.close_credit += 1;
            if !w.p.detached {
                core_close_init(w, rec, n, cx, depth)?;
                w.ghost.close_credit -= 1;
            }
            Ok((None, String::new()))
        }
        CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) => {
            let n = w.chans.iter().position(|c| c.id == *channel_id && c.port == port()).ok_or("core: no channel")?;
            if w.chans[n].st != St::Open && !(w.p.loose && w.chans[n].st == St::Closed) {
                return Err("core: channel not open".into());
            }
            let (msgs, queries) = match cx.req {
                Some(Req::Send { msgs, queries, .. }) => (msgs.clone(), queries.clone()),
                _ => (vec![], vec![]),
            };
            let ts = timeout.timestamp().map_or(0, |t| t.nanos());
            let block = timeout.block().map(|b| (b.revision, b.height));
            if ts == 0 && block.is_none() {
                return Err("core: no timeout".into());
            }
            let nth = w.ghost.sends;
            w.ghost.sends += 1;
            let ch = &mut w.chans[n];
            let seq = ch.next_seq;
            ch.next_seq = ch.next_seq.wrapping_add(1);
            ch.packets.insert(seq, Pkt { data: data.to_vec(), ts, block, msgs, queries, nth });
            rec.sent.push((n, seq));
            let d = pb::enc(&pb::msg([pb::u(1, seq)]));
            Ok((Some(d), "/cosmwasm.wasm.v1.MsgIBCSendResponse".into()))
        }
        CosmosMsg::Wasm(WasmMsg::Execute { .. }) => {
            if cx.cb_ok {
                Ok((None, String::new()))
            } else {
                Err("callback contract failed".into())
            }
        }
        // anything else is accepted by the chain; monitors judge whether it should have been sent
        _ => Ok((None, String::new())),
    }
}

fn apply(w: &mut World, a: &Act, rec: &mut Rec) -> Result<(), String> {
    match a {
        Act::Inst { from, owner, opts, cb } => {
            if w.inst {
                return Err("already instantiated".into());
            }
            let mut v = json!({"channel_open_init_options": opts.json()});
            if let Some(o) = owner {
                v["owner"] = json!(o);
            }
            if let Some(c) = cb {
                v["send_callbacks_to"] = json!(c);
            }
            let m = from_json(v.to_string().as_bytes()).map_err(|e| format!("json: {e}"))?;
            let info = MessageInfo { sender: Addr::unchecked(from), funds: w.p.inst_funds.iter().map(|(d, a)| Coin::new(*a, d.clone())).collect() };
            let i = call(w, rec, "instantiate", "", |d, e| contract::instantiate(d, e, info, m))?;
            w.inst = true;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::Exec { from, funds, req, cb_ok } => {
            let m = from_json(req.json().to_string().as_bytes()).map_err(|e| format!("json: {e}"))?;
            let info = MessageInfo {
                sender: Addr::unchecked(from),
                funds: funds.iter().map(|(d, a)| Coin::new(*a, d.clone())).collect(),
            };
            let i = call(w, rec, "execute", "", |d, e| contract::execute(d, e, info, m))?;
            run(w, rec, i, &Ctx { cb_ok: *cb_ok, req: Some(req) }, 0)
        }
        Act::RelayInit(c) => {
            core_open_init(w, rec, c.clone(), &Ctx { cb_ok: true, req: None }, 0)?;
            w.ghost.open_credit -= 1;
            Ok(())
        }
        Act::RelayTry(c, v) => {
            let m = IbcChannelOpenMsg::new_try(c.ibc(), v.clone());
            let i = call(w, rec, "open_try", "", |d, e| ibc::handshake::ibc_channel_open(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::RelayConfirm(c) => {
            let m = IbcChannelConnectMsg::new_confirm(c.ibc());
            let i = call(w, rec, "open_confirm", "", |d, e| ibc::handshake::ibc_channel_connect(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::OpenAck { ch, version, cpty_chan, cb_ok } => {
            let c = w.chans.get(*ch).ok_or("core: no channel")?;
            if c.st != St::Init {
                return Err("core: channel not INIT".into());
            }
            let mut c = c.clone();
            c.cpty_chan = cpty_chan.clone();
            let m = IbcChannelConnectMsg::new_ack(c.ibc(), version.clone());
            let i = call(w, rec, "open_ack", &c.id, |d, e| ibc::handshake::ibc_channel_connect(d, e, m))?;
            let c = &mut w.chans[*ch];
            c.cpty_chan = cpty_chan.clone();
            c.version = version.clone();
            c.st = St::Open;
            run(w, rec, i, &Ctx { cb_ok: *cb_ok, req: None }, 0)
        }
        Act::OpenAckRaw { chan, version } => {
            let m = IbcChannelConnectMsg::new_ack(chan.ibc(), version.clone());
            let i = call(w, rec, "open_ack", &chan.id, |d, e| ibc::handshake::ibc_channel_connect(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::CloseInit { ch } => {
            if *ch >= w.chans.len() {
                return Err("core: no channel".into());
            }
            core_close_init(w, rec, *ch, &Ctx { cb_ok: true, req: None }, 0)?;
            w.ghost.close_credit -= 1;
            Ok(())
        }
        Act::CloseConfirm { ch } => {
            let c = w.chans.get(*ch).ok_or("core: no channel")?;
            if c.st == St::Closed {
                return Err("core: channel closed".into());
            }
            let id = c.id.clone();
            let m = IbcChannelCloseMsg::new_confirm(c.ibc());
            let i = call(w, rec, "close_confirm", &id, |d, e| ibc::handshake::ibc_channel_close(d, e, m))?;
            w.chans[*ch].st = St::Closed;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::CloseRaw { init, chan } => {
            let m = if *init { IbcChannelCloseMsg::new_init(chan.ibc()) } else { IbcChannelCloseMsg::new_confirm(chan.ibc()) };
            let e = if *init { "close_init" } else { "close_confirm" };
            let i = call(w, rec, e, &chan.id, |d, e| ibc::handshake::ibc_channel_close(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::Recv { port, ch, data } => {
            let p = mk_packet("icahost", "channel-0", port, ch, 1, data, w.time + 1, None);
            let m = IbcPacketReceiveMsg::new(p, Addr::unchecked(addr("relayer")));
            let i = call(w, rec, "receive", ch, |d, e| ibc::relay::ibc_packet_receive(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::Ack { ch, seq, ack, relayer, cb_ok } => {
            let c = w.chans.get(*ch).ok_or("core: no channel")?;
            if !(c.st == St::Open || w.p.loose && c.st == St::Closed) || !c.packets.contains_key(seq) {
                return Err("core: cannot ack".into());
            }
            if c.order == Ord_::Ordered && *seq != c.next_ack && !w.p.loose {
                return Err("core: ack out of order".into());
            }
            let m = IbcPacketAckMsg::new(IbcAcknowledgement::new(ack.clone()), c.packet(*seq), Addr::unchecked(relayer));
            let id = c.id.clone();
            let i = call(w, rec, "ack", &id, |d, e| ibc::relay::ibc_packet_ack(d, e, m))?;
            let c = &mut w.chans[*ch];
            c.packets.remove(seq);
            if c.order == Ord_::Ordered && !w.p.loose {
                c.next_ack = c.next_ack.wrapping_add(1);
            }
            run(w, rec, i, &Ctx { cb_ok: *cb_ok, req: None }, 0)
        }
        Act::Timeout { ch, seq, relayer, cb_ok } => {
            let c = w.chans.get(*ch).ok_or("core: no channel")?;
            if c.st == St::Init || !c.packets.contains_key(seq) {
                return Err("core: cannot time out".into());
            }
            let m = IbcPacketTimeoutMsg::new(c.packet(*seq), Addr::unchecked(relayer));
            let id = c.id.clone();
            let i = call(w, rec, "timeout", &id, |d, e| ibc::relay::ibc_packet_timeout(d, e, m))?;
            let c = &mut w.chans[*ch];
            c.packets.remove(seq);
            if c.order == Ord_::Ordered {
                c.st = St::Closed;
            }
            run(w, rec, i, &Ctx { cb_ok: *cb_ok, req: None }, 0)
        }
        Act::Reply { id, ok, data } => {
            let rp = mk_reply(*id, *ok, data);
            let i = call(w, rec, "reply", "", |d, e| contract::reply(d, e, rp))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::Interrupted { from, req, off, ok, data } => {
            let m = from_json(req.json().to_string().as_bytes()).map_err(|e| format!("json: {e}"))?;
            let info = MessageInfo { sender: Addr::unchecked(from), funds: vec![] };
            let i = call(w, rec, "execute", "", |d, e| contract::execute(d, e, info, m))?;
            let top = rec.calls[i].msgs.iter().filter(|m| m.reply_on != ReplyOn::Never).map(|m| m.id).max().unwrap_or(0);
            let rp = mk_reply(top.wrapping_add(*off), *ok, data);
            call(w, rec, "reply", "", |d, e| contract::reply(d, e, rp)).map(|_| ())
        }
        Act::Advance { secs, blocks } => {
            w.time += secs * 1_000_000_000;
            w.height += blocks;
            Ok(())
        }
        Act::Jump { ch, by } => {
            let c = w.chans.get_mut(*ch).ok_or("core: no channel")?;
            if c.st != St::Open || (c.order == Ord_::Ordered && !c.packets.is_empty()) {
                return Err("core: cannot jump".into());
            }
            c.next_seq = c.next_seq.checked_add(*by).ok_or("core: sequence overflow")?;
            if c.order == Ord_::Ordered {
                c.next_ack = c.next_seq;
            }
            Ok(())
        }
        Act::MigrateFrom { contract, version, json_encoding } => {
            w.store = before_migration(&w.store, contract, version, *json_encoding);
            let m = from_json(b"{}").map_err(|e| e.to_string())?;
            let i = call(w, rec, "migrate", "", |d, e| contract::migrate(d, e, m))?;
            run(w, rec, i, &Ctx { cb_ok: true, req: None }, 0)
        }
        Act::Noop => Ok(()),
    }
}

#[allow(deprecated)]
fn mk_reply(id: u64, ok: bool, data: &Option<Vec<u8>>) -> Reply {
    let result = if ok {
        let msg_responses = data.iter().map(|d| MsgResponse { type_url: "/cosmwasm.wasm.v1.MsgIBCSendResponse".into(), value: d.clone().into() }).collect();
        SubMsgResult::Ok(SubMsgResponse { events: vec![], data: data.clone().map(Into::into), msg_responses })
    } else {
        SubMsgResult::Err("failed".into())
    };
    Reply { id, payload: Binary::default(), gas_used: 0, result }
}

/// The storage of an earlier installation.
pub fn before_migration(st: &Store, contract: &str, version: &str, json_encoding: bool) -> Store {
    let mut st = st.clone();
    // "@": as it was recorded
    if contract != "@" {
        st.set(b"contract_info", json!({"contract": contract, "version": version}).to_string().as_bytes());
    }
    if json_encoding {
        if let Some(mut v) = st.get(b"state").and_then(|s| serde_json::from_slice::<Json>(&s).ok()) {
            if v["ica_info"].is_object() {
                v["ica_info"]["encoding"] = json!("proto3json");
                st.set(b"state", v.to_string().as_bytes());
            }
        }
    }
    st
}

/// Account address named in a version string.
pub fn version_address(v: &str) -> String {
    serde_json::from_str::<Json>(v).ok().and_then(|v| v["address"].as_str().map(String::from)).unwrap_or_default()
}

/// What an accepted action means, according to the properties (not the code).
fn ghost(w0: &World, w: &mut World, a: &Act) {
    let g = &mut w.ghost;
    match a {
        Act::Inst { from, owner, opts, cb } => {
            g.creator = from.clone();
            g.owner = owner.clone().unwrap_or_else(|| from.clone());
            g.opts = Some(opts.clone());
            g.cb = cb.clone();
        }
        Act::Exec { from, req, .. } => match req {
            Req::Create(Some(o)) => g.opts = Some(o.clone()),
            Req::SetCb(c) => g.cb = c.clone(),
            Req::Transfer { to, exp } => {
                g.pending = Some(to.clone());
                g.expiry = *exp;
            }
            Req::Accept => {
                g.owner = from.clone();
                g.pending = None;
                g.expiry = None;
            }
            _ => {}
        },
        Act::OpenAck { ch, version, .. } => {
            g.tracked = Some(*ch);
            g.ica = version_address(version);
        }
        _ => {}
    }
    if let (true, Some(t)) = (w0.p.mirror.is_some(), &w0.twin) {
        w.twin = Some(Box::new(step(t, &mirrored(w0, t, a)).0));
        return;
    }
    // the twin never sees packets; a timeout that closes an ordered channel is a close to it
    if let Some(t) = &w0.twin {
        let mut t = (**t).clone();
        match a {
            Act::Exec { req: Req::Send { .. }, .. } | Act::Ack { .. } | Act::Reply { .. } | Act::Interrupted { .. } | Act::Jump { .. } => {}
            Act::Timeout { ch, .. } => {
                if w0.chans[*ch].st == St::Open && w.chans[*ch].st == St::Closed {
                    t = step(&t, &Act::CloseConfirm { ch: *ch }).0;
                }
            }
            other => t = step(&t, other).0,
        }
        w.twin = Some(Box::new(t));
    }
}

/// The action as it would be on the other chain: other sequence numbers, heights and times.
pub fn mirrored(w: &World, t: &World, a: &Act) -> Act {
    let mut a = a.clone();
    match &mut a {
        Act::Ack { ch, seq, .. } | Act::Timeout { ch, seq, .. } => {
            let base = |p: &Params| p.seq_base.get(*ch).copied().unwrap_or(1);
            *seq = seq.wrapping_sub(base(&w.p)).wrapping_add(base(&t.p));
        }
        Act::Exec { req: Req::Transfer { exp: Some(e), .. }, .. } => match e {
            Exp::Height(h) => *h = h.wrapping_sub(w.p.h0).wrapping_add(t.p.h0),
            Exp::Time(s) => *s = s.wrapping_sub(w.p.t0).wrapping_add(t.p.t0),
            Exp::Never => {}
        },
        Act::OpenAck { cpty_chan, .. } => {
            if let Some(i) = w.p.chan_names.iter().position(|n| n == cpty_chan) {
                *cpty_chan = t.p.chan_names[i].clone();
            }
        }
        _ => {}
    }
    a
}

/// One transaction. Rejected transactions leave the world as it was.
pub fn step(w: &World, a: &Act) -> (World, Rec) {
    let mut n = w.clone();
    let mut rec = Rec::default();
    match apply(&mut n, a, &mut rec) {
        Ok(()) => {
            rec.accepted = true;
            ghost(w, &mut n, a);
            (n, rec)
        }
        Err(e) => {
            rec.err = e;
            rec.sent.clear();
            (w.clone(), rec)
        }
    }
}
