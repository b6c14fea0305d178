//! A contract using the library: answers on stdout, line by line, how it understands what it gets
//! on stdin.

use std::io::{BufRead, Write};

use cosmwasm_schema::cw_serde;
use cosmwasm_std::{from_json, to_json_string, Addr, BlockInfo, ContractInfo, CosmosMsg, Env, IbcChannel, IbcEndpoint, IbcMsg, IbcOrder, IbcPacket, Timestamp};
use cw_ica_controller::helpers::ica_callback_execute;
use cw_ica_controller::ibc::types::metadata::TxEncoding;
use cw_ica_controller::ibc::types::packet::acknowledgement::Data;
use cw_ica_controller::ibc::types::packet::IcaPacketData;
use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller::types::msg::options::ChannelOpenInitOptions;
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use cw_ica_controller::types::state::{ChannelState, ContractState};
use serde_json::{json, Value as Json};

/// A receiver as the documentation suggests it.
#[ica_callback_execute]
#[cw_serde]
pub enum Receiver {
    Own { a: u64 },
    Other(String),
}

fn endpoint(e: &IbcEndpoint) -> Json {
    json!({"port_id": e.port_id, "channel_id": e.channel_id})
}
fn order(o: &IbcOrder) -> &'static str {
    match o {
        IbcOrder::Ordered => "ORDER_ORDERED",
        IbcOrder::Unordered => "ORDER_UNORDERED",
    }
}
fn encoding(e: &TxEncoding) -> &'static str {
    match e {
        TxEncoding::Protobuf => "proto3",
        TxEncoding::Proto3Json => "proto3json",
    }
}
fn channel(c: &IbcChannel) -> Json {
    json!({"endpoint": endpoint(&c.endpoint), "counterparty_endpoint": endpoint(&c.counterparty_endpoint), "order": order(&c.order), "version": c.version, "connection_id": c.connection_id})
}
fn packet(p: &IbcPacket) -> Json {
    json!({
        "data": p.data.to_base64(), "src": endpoint(&p.src), "dest": endpoint(&p.dest), "sequence": p.sequence,
        "timeout": {
            "block": p.timeout.block().map(|b| json!({"revision": b.revision, "height": b.height})),
            "timestamp": p.timeout.timestamp().map(|t| t.nanos().to_string()),
        },
    })
}

/// What the receiver sees, field by field.
fn understand(m: &IcaControllerCallbackMsg) -> Result<Json, String> {
    Ok(match m {
        IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
            ica_acknowledgement,
            original_packet,
            relayer,
            #[cfg(feature = "query")]
            query_result,
            ..
        } => {
            let ack = match ica_acknowledgement {
                Data::Result(b) => json!({"result": b.to_base64()}),
                Data::Error(e) => json!({"error": e}),
            };
            #[allow(unused_mut)]
            let mut v = json!({"ica_acknowledgement": ack, "original_packet": packet(original_packet), "relayer": relayer.as_str()});
            #[cfg(feature = "query")]
            {
                if let Some(q) = query_result {
                    v["query_result"] = serde_json::to_value(q).map_err(|e| e.to_string())?;
                }
            }
            json!({"on_acknowledgement_packet_callback": v})
        }
        IcaControllerCallbackMsg::OnTimeoutPacketCallback { original_packet, relayer } => {
            json!({"on_timeout_packet_callback": {"original_packet": packet(original_packet), "relayer": relayer.as_str()}})
        }
        IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel: c, ica_address, tx_encoding } => {
            json!({"on_channel_open_ack_callback": {"channel": channel(c), "ica_address": ica_address, "tx_encoding": encoding(&tx_encoding)}})
        }
    })
}

fn opt(v: &Json) -> Option<String> {
    v.as_str().map(String::from)
}

fn options(v: &Json) -> ChannelOpenInitOptions {
    ChannelOpenInitOptions {
        connection_id: opt(&v["connection_id"]).unwrap_or_default(),
        counterparty_connection_id: opt(&v["counterparty_connection_id"]).unwrap_or_default(),
        counterparty_port_id: opt(&v["counterparty_port_id"]),
        channel_ordering: match v["channel_ordering"].as_str() {
            Some("ORDER_ORDERED") => Some(IbcOrder::Ordered),
            Some("ORDER_UNORDERED") => Some(IbcOrder::Unordered),
            _ => None,
        },
    }
}

fn expiration(v: &Json) -> Option<cw_ownable::Expiration> {
    if let Some(h) = v["at_height"].as_u64() {
        return Some(cw_ownable::Expiration::AtHeight(h));
    }
    if let Some(t) = v["at_time"].as_str() {
        return Some(cw_ownable::Expiration::AtTime(Timestamp::from_nanos(t.parse().ok()?)));
    }
    v.get("never").map(|_| cw_ownable::Expiration::Never {})
}

/// Builds a request from the library's types and serialises it.
fn request(v: &Json) -> Result<Option<String>, String> {
    let e = |m: ExecuteMsg| to_json_string(&m).map(Some).map_err(|e| e.to_string());
    if let Some(c) = v.get("create_channel") {
        return e(ExecuteMsg::CreateChannel { channel_open_init_options: c.get("channel_open_init_options").map(options) });
    }
    if v.get("close_channel").is_some() {
        return e(ExecuteMsg::CloseChannel {});
    }
    if let Some(c) = v.get("update_callback_address") {
        return e(ExecuteMsg::UpdateCallbackAddress { callback_address: opt(&c["callback_address"]) });
    }
    if let Some(c) = v.get("update_ownership") {
        let a = match c {
            Json::String(s) if s == "accept_ownership" => cw_ownable::Action::AcceptOwnership,
            Json::String(_) => cw_ownable::Action::RenounceOwnership,
            c => cw_ownable::Action::TransferOwnership { new_owner: opt(&c["transfer_ownership"]["new_owner"]).unwrap_or_default(), expiry: expiration(&c["transfer_ownership"]["expiry"]) },
        };
        return e(ExecuteMsg::UpdateOwnership(a));
    }
    if let Some(c) = v.get("send_cosmos_msgs") {
        let mut messages: Vec<CosmosMsg> = vec![];
        for m in c["messages"].as_array().unwrap_or(&vec![]) {
            // a message this build does not know cannot be requested by it
            let Ok(m) = from_json(m.to_string().as_bytes()) else { return Ok(None) };
            messages.push(m);
        }
        let mut queries: Vec<cosmwasm_std::QueryRequest<cosmwasm_std::Empty>> = vec![];
        for q in c["queries"].as_array().unwrap_or(&vec![]) {
            let Ok(q) = from_json(q.to_string().as_bytes()) else { return Ok(None) };
            queries.push(q);
        }
        if cfg!(not(feature = "query")) && !queries.is_empty() {
            return Ok(None);
        }
        return e(ExecuteMsg::SendCosmosMsgs {
            messages,
            #[cfg(feature = "query")]
            queries,
            packet_memo: opt(&c["packet_memo"]),
            timeout_seconds: c["timeout_seconds"].as_u64(),
        });
    }
    if let Some(c) = v.get("instantiate") {
        let m = InstantiateMsg { owner: opt(&c["owner"]), channel_open_init_options: options(&c["channel_open_init_options"]), send_callbacks_to: opt(&c["send_callbacks_to"]) };
        return to_json_string(&m).map(Some).map_err(|e| e.to_string());
    }
    if v.get("migrate").is_some() {
        return to_json_string(&MigrateMsg {}).map(Some).map_err(|e| e.to_string());
    }
    let q = match v["query"].as_str() {
        Some("get_channel") => QueryMsg::GetChannel {},
        Some("get_contract_state") => QueryMsg::GetContractState {},
        Some("ownership") => QueryMsg::Ownership {},
        _ => return Err(format!("unknown request {v}")),
    };
    to_json_string(&q).map(Some).map_err(|e| e.to_string())
}

/// Reads a query answer with the library's types.
fn answer(kind: &str, text: &str) -> Result<Json, String> {
    match kind {
        "get_channel" => {
            let c: ChannelState = from_json(text.as_bytes()).map_err(|e| e.to_string())?;
            Ok(json!({"channel": channel(&c.channel), "channel_status": if c.is_open() { "STATE_OPEN" } else { "STATE_CLOSED" }}))
        }
        "get_contract_state" => {
            let s: ContractState = from_json(text.as_bytes()).map_err(|e| e.to_string())?;
            let i = s.ica_info.as_ref().map(|i| json!({"ica_address": i.ica_address, "channel_id": i.channel_id, "encoding": encoding(&i.encoding)}));
            Ok(json!({"ica_info": i, "callback_address": s.callback_address.map(|a| a.to_string())}))
        }
        _ => {
            let o: cw_ownable::Ownership<String> = from_json(text.as_bytes()).map_err(|e| e.to_string())?;
            Ok(json!({"owner": o.owner, "pending_owner": o.pending_owner, "pending_expiry": o.pending_expiry}))
        }
    }
}

fn tx_encoding(v: &Json) -> Option<TxEncoding> {
    match v.as_str() {
        Some("proto3") => Some(TxEncoding::Protobuf),
        Some("proto3json") => Some(TxEncoding::Proto3Json),
        _ => None,
    }
}

/// Builds a packet with the library.
fn build_packet(v: &Json) -> Result<Json, String> {
    let mut messages: Vec<CosmosMsg> = vec![];
    for m in v["messages"].as_array().unwrap_or(&vec![]) {
        match from_json(m.to_string().as_bytes()) {
            Ok(m) => messages.push(m),
            Err(_) => return Ok(json!({"unknown": m})),
        }
    }
    let mut queries: Vec<cosmwasm_std::QueryRequest<cosmwasm_std::Empty>> = vec![];
    for q in v["queries"].as_array().unwrap_or(&vec![]) {
        match from_json(q.to_string().as_bytes()) {
            Ok(q) => queries.push(q),
            Err(_) => return Ok(json!({"unknown": q})),
        }
    }
    if cfg!(not(feature = "query")) && !queries.is_empty() {
        return Ok(json!({"unknown": "queries"}));
    }
    let memo = opt(&v["memo"]);
    let ica = v["ica"].as_str().unwrap_or_default();
    let enc = tx_encoding(&v["encoding"]).unwrap_or(TxEncoding::Protobuf);
    #[cfg(feature = "query")]
    let p = IcaPacketData::from_cosmos_msgs(messages, queries, &enc, memo, ica);
    #[cfg(not(feature = "query"))]
    let p = IcaPacketData::from_cosmos_msgs(messages, &enc, memo, ica);
    let p = p.map_err(|e| e.to_string())?;
    let env = Env {
        block: BlockInfo { height: 12_345, time: Timestamp::from_nanos(v["time"].as_u64().unwrap_or_default()), chain_id: "cosmos-testnet-14002".into() },
        transaction: None,
        contract: ContractInfo { address: Addr::unchecked("me") },
    };
    match p.to_ibc_msg(&env, v["channel"].as_str().unwrap_or_default(), v["timeout"].as_u64()).map_err(|e| e.to_string())? {
        IbcMsg::SendPacket { channel_id, data, timeout } => Ok(json!({
            "channel": channel_id, "data": data.to_base64(),
            "timestamp": timeout.timestamp().map(|t| t.nanos()), "block": timeout.block().is_some(),
        })),
        m => Err(format!("not a packet: {m:?}")),
    }
}

/// Builds a channel proposal with the library.
fn build_open(v: &Json) -> Result<Json, String> {
    let o = options(v);
    let m = new_ica_channel_open_init_cosmos_msg(
        v["contract"].as_str().unwrap_or_default(),
        o.connection_id,
        o.counterparty_port_id,
        o.counterparty_connection_id,
        tx_encoding(&v["encoding"]),
        o.channel_ordering,
    );
    Ok(json!(to_json_string(&m).map_err(|e| e.to_string())?))
}

/// Reads an acknowledgement with the library.
fn read_ack(text: &str) -> Result<Json, String> {
    let d: Data = from_json(text.as_bytes()).map_err(|e| e.to_string())?;
    let tx = match d.to_tx_msg_data() {
        Ok(t) => {
            #[allow(deprecated)]
            let old: Vec<Json> = t.data.iter().map(|m| json!([m.msg_type, m.data])).collect();
            json!({"data": old, "msg_responses": t.msg_responses.iter().map(|a| json!([a.type_url, a.value])).collect::<Vec<_>>()})
        }
        Err(_) => Json::Null,
    };
    #[allow(unused_mut)]
    let mut q: Vec<Json> = vec![];
    #[cfg(feature = "query")]
    for i in (0..8).chain([255, 4_294_967_295, 4_294_967_296, usize::MAX]) {
        q.push(match d.decode_module_query_safe_resp(i) {
            Ok(r) => json!({"height": r.height, "responses": r.responses}),
            Err(_) => Json::Null,
        });
    }
    let d = match &d {
        Data::Result(b) => json!({"result": b.to_base64()}),
        Data::Error(e) => json!({"error": e}),
    };
    Ok(json!({"ack": d, "tx": tx, "queries": q}))
}

/// Builds the message that delivers a callback.
fn build_callback(v: &Json) -> Result<Json, String> {
    let m: IcaControllerCallbackMsg = from_json(v["callback"].to_string().as_bytes()).map_err(|e| e.to_string())?;
    let m: CosmosMsg = m.into_cosmos_msg(v["to"].as_str().unwrap_or_default()).map_err(|e| e.to_string())?;
    Ok(json!(to_json_string(&m).map_err(|e| e.to_string())?))
}

fn handle(v: &Json) -> Result<Json, String> {
    let text = v["text"].as_str().unwrap_or_default();
    match v["op"].as_str() {
        Some("callback") => match from_json::<Receiver>(text.as_bytes()).map_err(|e| e.to_string())? {
            Receiver::ReceiveIcaCallback(m) => {
                let seen = understand(&m)?;
                // what the receiver would pass on
                let again = to_json_string(&Receiver::ReceiveIcaCallback(m)).map_err(|e| e.to_string())?;
                Ok(json!({"seen": seen, "again": again}))
            }
            _ => Err("not understood as a callback".into()),
        },
        Some("own") => {
            let m: Receiver = from_json(text.as_bytes()).map_err(|e| e.to_string())?;
            Ok(json!(to_json_string(&m).map_err(|e| e.to_string())?))
        }
        Some("request") => Ok(json!(request(&v["request"])?)),
        Some("answer") => answer(v["kind"].as_str().unwrap_or_default(), text),
        Some("packet") => build_packet(v),
        Some("open_init") => build_open(v),
        Some("ack") => read_ack(text),
        Some("build_callback") => build_callback(v),
        _ => Err("unknown operation".into()),
    }
}

pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Json = serde_json::from_str(&line).unwrap_or(Json::Null);
        let r = std::panic::catch_unwind(|| handle(&v)).unwrap_or_else(|_| Err("panic".into()));
        let a = match r {
            Ok(x) => json!({"ok": x}),
            Err(e) => json!({"err": e}),
        };
        if writeln!(out, "{a}").and_then(|()| out.flush()).is_err() {
            break;
        }
    }
}
