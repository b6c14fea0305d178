//! The receiver macro of /repo/derive on enums of every shape. Variants are only named in JSON, so
//! that an enum with missing variants still builds and is found at run time.
#![allow(dead_code)]

use cosmwasm_schema::{cw_serde, schema_for};
use local_derive::ica_callback_execute;
use serde_json::{json, Value as Json};

#[ica_callback_execute]
#[cw_serde]
enum Empty {}

#[ica_callback_execute]
#[cw_serde]
enum One {
    Foo,
}

#[ica_callback_execute]
#[cw_serde]
enum Shapes {
    Unit,
    Braces {},
    Tuple(u64),
    Pair(u64, String),
    Struct { a: u64, b: Option<String> },
    Nested(Inner),
}

#[cw_serde]
struct Inner {
    x: Vec<u32>,
}

#[ica_callback_execute]
#[cw_serde]
/// documented
pub enum Documented {
    /// first
    First { a: String },
    /// second
    #[serde(rename = "zweite")]
    Second {},
    /// a variant similar to the added one
    ReceiveIca(u64),
    ReceiveIcaCallbacks {},
}

#[ica_callback_execute]
#[deny(missing_docs)]
#[cw_serde]
/// attributes before the macro's successor
enum Many {
    /// .
    A1, /// .
    A2, /// .
    A3, /// .
    A4, /// .
    A5, /// .
    A6, /// .
    A7, /// .
    A8, /// .
    A9, /// .
    B1 {}, /// .
    B2 {
        /// .
        x: u8
    },
}

fn callbacks() -> Vec<Json> {
    let p = json!({"data": "AQ==", "src": {"port_id": "a", "channel_id": "channel-0"}, "dest": {"port_id": "b", "channel_id": "channel-1"}, "sequence": 3, "timeout": {"block": {"revision": 1, "height": 2}, "timestamp": "5"}});
    vec![
        json!({"on_channel_open_ack_callback": {"channel": {"endpoint": {"port_id": "wasm.x", "channel_id": "channel-0"}, "counterparty_endpoint": {"port_id": "icahost", "channel_id": "channel-9"}, "order": "ORDER_ORDERED", "version": "v", "connection_id": "connection-0"}, "ica_address": "cosmos1ica", "tx_encoding": "proto3"}}),
        json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": {"result": "AQ=="}, "original_packet": p, "relayer": "r"}}),
        json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": {"error": "e"}, "original_packet": p, "relayer": "r"}}),
        json!({"on_timeout_packet_callback": {"original_packet": p, "relayer": "r"}}),
    ]
}

/// The variant names in a schema.
fn names(v: &Json) -> Vec<String> {
    let mut out = vec![];
    let alts = v["oneOf"].as_array().or_else(|| v["anyOf"].as_array()).cloned().unwrap_or_else(|| vec![v.clone()]);
    for a in alts {
        if let Some(e) = a["enum"].as_array() {
            out.extend(e.iter().filter_map(Json::as_str).map(String::from));
        }
        if let Some(p) = a["properties"].as_object() {
            out.extend(p.keys().cloned());
        }
    }
    out.sort();
    out
}

fn check<T: serde::Serialize + serde::de::DeserializeOwned>(name: &str, schema: &Json, own: &[Json]) -> Result<u64, String> {
    let mut n = 0;
    let mut want: Vec<String> = own.iter().map(|v| v.as_str().map(String::from).unwrap_or_else(|| v.as_object().unwrap().keys().next().unwrap().clone())).collect();
    want.push("receive_ica_callback".into());
    want.sort();
    want.dedup();
    let got = names(schema);
    if got != want {
        return Err(format!("{name} has the variants {got:?}, expected {want:?}"));
    }
    let mut all: Vec<Json> = own.to_vec();
    all.extend(callbacks().into_iter().map(|c| json!({"receive_ica_callback": c})));
    for v in all {
        n += 1;
        let m: T = serde_json::from_value(v.clone()).map_err(|e| format!("{name} does not understand {v}: {e}"))?;
        let b = serde_json::to_value(&m).map_err(|e| e.to_string())?;
        if b != v {
            return Err(format!("{name} understands {v} as {b}"));
        }
    }
    for v in [json!("receive_ica_callback"), json!({"receive_ica_callback": {}}), json!({"receive_callback": callbacks()[0]}), json!({"unknown": {}})] {
        n += 1;
        if serde_json::from_value::<T>(v.clone()).is_ok() {
            return Err(format!("{name} accepts {v}"));
        }
    }
    Ok(n)
}

fn main() {
    let s = |x: schemars::schema::RootSchema| serde_json::to_value(x).unwrap();
    let unit = |v: &[&str]| v.iter().map(|x| json!(x)).collect::<Vec<_>>();
    let mut many = unit(&["a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9"]);
    many.extend([json!({"b1": {}}), json!({"b2": {"x": 3}})]);
    let r = [
        check::<Empty>("Empty", &s(schema_for!(Empty)), &[]),
        check::<One>("One", &s(schema_for!(One)), &unit(&["foo"])),
        check::<Shapes>("Shapes", &s(schema_for!(Shapes)), &[json!("unit"), json!({"braces": {}}), json!({"tuple": 1}), json!({"pair": [1, "x"]}), json!({"struct": {"a": 1, "b": "x"}}), json!({"nested": {"x": [1, 2]}})]),
        check::<Documented>("Documented", &s(schema_for!(Documented)), &[json!({"first": {"a": "b"}}), json!({"zweite": {}}), json!({"receive_ica": 3}), json!({"receive_ica_callbacks": {}})]),
        check::<Many>("Many", &s(schema_for!(Many)), &many),
    ];
    let calls: u64 = r.iter().filter_map(|r| r.as_ref().ok()).sum();
    let bad = r.iter().find_map(|r| r.as_ref().err().cloned());
    println!(
        "{}",
        json!({"config": "receiver macro", "depth": 0, "states": r.len(), "transitions": calls, "validated": calls, "layers": [], "sample": ["Shapes"], "violation": bad.map(|m| json!({"message": m, "history": []})), "seconds": 0})
    );
}
