//! A controller in mock storage, driven through its entry points.
#![allow(dead_code)]
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::*;
use cw_ica_controller::{contract, ibc};
pub use serde_json::{json, Value};

pub struct W {
    pub deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    pub env: Env,
}

pub fn addr(n: &str) -> String {
    MockApi::default().addr_make(n).to_string()
}
fn s<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
pub fn meta(conn: &str, host: &str, a: &str) -> String {
    json!({"version":"ics27-1","controller_connection_id":conn,"host_connection_id":host,"address":a,"encoding":"proto3","tx_type":"sdk_multi_msg"}).to_string()
}
pub fn chan(id: &str, conn: &str, order: IbcOrder, version: &str, cpty: &str) -> IbcChannel {
    IbcChannel::new(
        IbcEndpoint { port_id: "wasm.controller".into(), channel_id: id.into() },
        IbcEndpoint { port_id: "icahost".into(), channel_id: cpty.into() },
        order,
        version,
        conn,
    )
}
pub fn packet(id: &str, cpty: &str, seq: u64) -> IbcPacket {
    IbcPacket::new(
        b"data".to_vec(),
        IbcEndpoint { port_id: "wasm.controller".into(), channel_id: id.into() },
        IbcEndpoint { port_id: "icahost".into(), channel_id: cpty.into() },
        seq,
        IbcTimeout::with_timestamp(Timestamp::from_seconds(2_000_000_000)),
    )
}

impl W {
    /// An instantiated controller whose first handshake has started.
    pub fn new(order: &str, cb: Option<String>) -> W {
        let mut w = W {
            deps: OwnedDeps { storage: MockStorage::default(), api: MockApi::default(), querier: MockQuerier::default(), custom_query_type: std::marker::PhantomData },
            env: mock_env(),
        };
        let m = from_json(json!({"owner": addr("owner"), "channel_open_init_options": {"connection_id":"connection-0","counterparty_connection_id":"connection-1","channel_ordering":order}, "send_callbacks_to": cb}).to_string()).unwrap();
        contract::instantiate(w.deps.as_mut(), w.env.clone(), MessageInfo { sender: Addr::unchecked(addr("creator")), funds: vec![] }, m).unwrap();
        w.init("channel-0", "connection-0", ord(order)).unwrap();
        w
    }
    /// As `new`, and the handshake has completed.
    pub fn open(order: &str, cb: Option<String>) -> W {
        let mut w = W::new(order, cb);
        w.ack_open("channel-0", "connection-0", ord(order), "cosmos1ica").unwrap();
        w
    }
    pub fn exec(&mut self, from: &str, m: Value) -> Result<Response, String> {
        let m = from_json(m.to_string()).map_err(|e| e.to_string())?;
        let save = self.dump();
        let r = s(|| contract::execute(self.deps.as_mut(), self.env.clone(), MessageInfo { sender: Addr::unchecked(addr(from)), funds: vec![] }, m));
        self.undo(r, save)
    }
    pub fn init(&mut self, id: &str, conn: &str, order: IbcOrder) -> Result<IbcChannelOpenResponse, String> {
        let m = IbcChannelOpenMsg::new_init(chan(id, conn, order, &meta(conn, "connection-1", ""), ""));
        let save = self.dump();
        let r = s(|| ibc::handshake::ibc_channel_open(self.deps.as_mut(), self.env.clone(), m));
        self.undo(r, save)
    }
    pub fn ack_open(&mut self, id: &str, conn: &str, order: IbcOrder, ica: &str) -> Result<IbcBasicResponse, String> {
        let m = IbcChannelConnectMsg::new_ack(chan(id, conn, order, &meta(conn, "connection-1", ""), "channel-9"), meta(conn, "connection-1", ica));
        let save = self.dump();
        let r = s(|| ibc::handshake::ibc_channel_connect(self.deps.as_mut(), self.env.clone(), m));
        self.undo(r, save)
    }
    pub fn close(&mut self, init: bool, id: &str, conn: &str, order: IbcOrder, ica: &str) -> Result<IbcBasicResponse, String> {
        let c = chan(id, conn, order, &meta(conn, "connection-1", ica), "channel-9");
        let m = if init { IbcChannelCloseMsg::new_init(c) } else { IbcChannelCloseMsg::new_confirm(c) };
        let save = self.dump();
        let r = s(|| ibc::handshake::ibc_channel_close(self.deps.as_mut(), self.env.clone(), m));
        self.undo(r, save)
    }
    pub fn ack(&mut self, p: IbcPacket, ack: Value) -> Result<IbcBasicResponse, String> {
        let m = IbcPacketAckMsg::new(IbcAcknowledgement::new(ack.to_string().into_bytes()), p, Addr::unchecked(addr("relayer")));
        let save = self.dump();
        let r = s(|| ibc::relay::ibc_packet_ack(self.deps.as_mut(), self.env.clone(), m));
        self.undo(r, save)
    }
    pub fn timeout(&mut self, p: IbcPacket) -> Result<IbcBasicResponse, String> {
        let m = IbcPacketTimeoutMsg::new(p, Addr::unchecked(addr("relayer")));
        let save = self.dump();
        let r = s(|| ibc::relay::ibc_packet_timeout(self.deps.as_mut(), self.env.clone(), m));
        self.undo(r, save)
    }
    /// The chain's reply to a packet sent with sequence number `seq`.
    #[allow(deprecated)]
    pub fn sent(&mut self, sm: &SubMsg, seq: u64) -> Result<Response, String> {
        let mut d = vec![8u8];
        let mut n = seq;
        loop {
            if n < 128 {
                d.push(n as u8);
                break;
            }
            d.push((n & 127) as u8 | 128);
            n >>= 7;
        }
        let resp = SubMsgResponse { events: vec![], data: Some(d.clone().into()), msg_responses: vec![MsgResponse { type_url: "/cosmwasm.wasm.v1.MsgIBCSendResponse".into(), value: d.into() }] };
        let r = Reply { id: sm.id, payload: sm.payload.clone(), gas_used: 0, result: SubMsgResult::Ok(resp) };
        s(|| contract::reply(self.deps.as_mut(), self.env.clone(), r))
    }
    pub fn query(&self, q: Value) -> Value {
        let m = from_json(q.to_string()).unwrap();
        match contract::query(self.deps.as_ref(), self.env.clone(), m) {
            Ok(b) => serde_json::from_slice(&b).unwrap(),
            Err(e) => json!({"error": e.to_string()}),
        }
    }
    pub fn status(&self) -> String {
        let c = self.query(json!({"get_channel": {}}));
        c["channel_status"].as_str().unwrap_or("none").to_string()
    }
    pub fn dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.deps.storage.range(None, None, Order::Ascending).collect()
    }
    /// A rejected transaction is rolled back by the chain.
    fn undo<T>(&mut self, r: Result<T, String>, save: Vec<(Vec<u8>, Vec<u8>)>) -> Result<T, String> {
        if r.is_err() {
            let mut st = MockStorage::default();
            for (k, v) in save {
                st.set(&k, &v);
            }
            self.deps.storage = st;
        }
        r
    }
}
pub fn ord(o: &str) -> IbcOrder {
    if o == "ORDER_ORDERED" { IbcOrder::Ordered } else { IbcOrder::Unordered }
}
pub const OR: &str = "ORDER_ORDERED";
pub const UN: &str = "ORDER_UNORDERED";
pub fn send(queries: Value) -> Value {
    json!({"send_cosmos_msgs": {"messages": [], "queries": queries}})
}
pub fn balance() -> Value {
    json!({"bank": {"balance": {"address": "cosmos1x", "denom": "stake"}}})
}
pub fn supply() -> Value {
    json!({"bank": {"supply": {"denom": "stake"}}})
}
/// The host's acknowledgement for a packet holding one query, answered with one coin.
pub fn coin_ack(amount: &str) -> Value {
    fn f(n: u8, d: &[u8]) -> Vec<u8> {
        let mut v = vec![n << 3 | 2, d.len() as u8];
        v.extend_from_slice(d);
        v
    }
    let coin = [f(1, b"stake"), f(2, amount.as_bytes())].concat();
    let resp = f(1, &coin);
    let mq = [vec![8, 77], f(2, &resp)].concat();
    let any = [f(1, b"/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse"), f(2, &mq)].concat();
    json!({"result": Binary::from(f(2, &any)).to_base64()})
}
pub fn callback(r: &IbcBasicResponse) -> Option<Value> {
    r.messages.iter().find_map(|m| match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => serde_json::from_slice(msg).ok(),
        _ => None,
    })
}
pub fn must(ok: bool, what: &str) {
    if !ok {
        eprintln!("property broken: {what}");
        std::process::exit(1);
    }
}
