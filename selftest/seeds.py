"""Planted bugs (see seed.py). Not read by any check."""
S = []
C, H, R = "src/contract.rs", "src/ibc/handshake.rs", "src/ibc/relay.rs"
ME, PK, EV, SG = "src/ibc/types/metadata.rs", "src/ibc/types/packet.rs", "src/ibc/types/events.rs", "src/ibc/types/stargate.rs"
CM, QM, ST, CB, MS, HE = "src/types/cosmos_msg.rs", "src/types/query_msg.rs", "src/types/state.rs", "src/types/callbacks.rs", "src/types/msg.rs", "src/helpers.rs"
ASSERT = "cw_ownable::assert_owner(deps.storage, &info.sender)?;"


def s(name, prop, needs, breaks, edits, main, *lib):
    S.append((name, prop, needs, breaks, edits, main, *lib))


s("c01-reopen-by-anyone", "C01", "a channel that was opened and then closed, and a create request without options from a stranger",
  "Once the tracked channel is closed anybody can make the controller re-create it with the stored options.",
  [(C, ASSERT + "\n\n        let options = if", """let reopening = options.is_none()
            && state::CHANNEL_STATE
                .may_load(deps.storage)?
                .is_some_and(|channel_state| !channel_state.is_open());
        if !reopening {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let options = if""")],
  """
fn main() {
    let mut w = W::open(UN, None);
    must(w.exec("stranger", json!({"create_channel": {}})).is_err(), "stranger creates a channel while one is open");
    w.close(false, "channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
    must(w.exec("stranger", json!({"create_channel": {}})).is_err(), "a stranger made the controller re-create its channel");
    w.exec("owner", json!({"create_channel": {}})).unwrap();
}
""")

s("c02-renounce-with-proposal", "C02", "a pending ownership proposal when the owner renounces",
  "Ownership can be renounced while a transfer is proposed, leaving the controller without an owner.",
  [(C, "if action == cw_ownable::Action::RenounceOwnership {", """if action == cw_ownable::Action::RenounceOwnership
            && cw_ownable::get_ownership(deps.storage)?
                .pending_owner
                .is_none()
        {""")],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.exec("owner", json!({"update_ownership": "renounce_ownership"})).is_err(), "renounced");
    w.exec("owner", json!({"update_ownership": {"transfer_ownership": {"new_owner": addr("heir")}}})).unwrap();
    must(w.exec("owner", json!({"update_ownership": "renounce_ownership"})).is_err(), "ownership was renounced");
    must(w.query(json!({"ownership": {}}))["owner"] == json!(addr("owner")), "the owner is lost");
}
""")

s("c03-flag-after-timeout", "C03", "an ordered channel closed by a packet timeout, then a handshake start by a stranger",
  "After a timeout closed the channel anyone can start a handshake on the controller's port without a request of the owner.",
  [(R, "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n", "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        // the channel can be opened again\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n")],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.init("channel-1", "connection-0", ord(OR)).is_err(), "uninvited handshake");
    w.timeout(packet("channel-0", "channel-9", 1)).unwrap();
    must(w.status() == "STATE_CLOSED", "closed");
    must(w.init("channel-1", "connection-0", ord(OR)).is_err(), "a handshake nobody requested was accepted");
}
""")

s("c04-close-permit-kept", "C04", "an owner close, a reopened channel, then a close by a stranger",
  "The permission to close survives the owner's close, so after reopening anybody can close the channel.",
  [(H, "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n\n", ""),
   (H, "                actual: channel_state.channel_status.to_string(),\n            });\n        }\n\n        // Update the channel state\n        channel_state.close();", "                actual: channel_state.channel_status.to_string(),\n            });\n        }\n        if !channel_state.is_ordered() {\n            state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n        }\n\n        // Update the channel state\n        channel_state.close();", 0)],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.close(true, "channel-0", "connection-0", ord(OR), "cosmos1ica").is_err(), "closed by a stranger");
    w.exec("owner", json!({"close_channel": {}})).unwrap();
    w.close(true, "channel-0", "connection-0", ord(OR), "cosmos1ica").unwrap();
    w.exec("owner", json!({"create_channel": {}})).unwrap();
    w.init("channel-1", "connection-0", ord(OR)).unwrap();
    w.ack_open("channel-1", "connection-0", ord(OR), "cosmos1ica").unwrap();
    must(w.close(true, "channel-1", "connection-0", ord(OR), "cosmos1ica").is_err(), "a close nobody requested was accepted");
}
""")

s("c05-second-start-other-connection", "C05", "an open channel and a create request for another connection",
  "A handshake over another connection is started while a channel is open.",
  [(H, "            // if the channel is already open, return an error\n            if channel_state.is_open() {", "            // if the channel is already open, return an error\n            if channel_state.is_open()\n                && channel_state.channel.connection_id == channel.connection_id\n            {")],
  """
fn main() {
    let mut w = W::open(OR, None);
    let _ = w.exec("owner", json!({"create_channel": {"channel_open_init_options": {"connection_id": "connection-4", "counterparty_connection_id": "connection-1"}}}));
    must(w.init("channel-1", "connection-4", ord(OR)).is_err(), "a second handshake was started while a channel is open");
}
""")

s("c06-unordered-close-ignored", "C06", "an unordered channel closed by the counterparty",
  "A counterparty close of an unordered channel is accepted but the channel is still reported open.",
  [(H, "        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;", "        // Update the channel state\n        if channel_state.is_ordered() {\n            channel_state.close();\n            state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        }", 1)],
  """
fn main() {
    for o in [OR, UN] {
        let mut w = W::open(o, None);
        w.close(false, "channel-0", "connection-0", ord(o), "cosmos1ica").unwrap();
        must(w.status() == "STATE_CLOSED", "a channel closed by the counterparty is reported open");
    }
}
""")

s("c07-ordering-inherited", "C07", "a create request with options that leave the ordering unset after an unordered channel",
  "An unset ordering is taken from the previous options instead of being ordered.",
  [(C, "            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", """            let previous = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;
            let new_options = ChannelOpenInitOptions {
                channel_ordering: new_options
                    .channel_ordering
                    .or_else(|| previous.and_then(|options| options.channel_ordering)),
                ..new_options
            };
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options""")],
  """
fn value(r: &Response) -> Vec<u8> {
    match &r.messages[0].msg {
        #[allow(deprecated)]
        CosmosMsg::Stargate { value, .. } => value.to_vec(),
        m => panic!("{m:?}"),
    }
}
fn main() {
    let o = json!({"create_channel": {"channel_open_init_options": {"connection_id": "connection-4", "counterparty_connection_id": "connection-1"}}});
    let mut a = W::open(UN, None);
    a.close(false, "channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
    let mut b = W::open(OR, None);
    b.close(false, "channel-0", "connection-0", ord(OR), "cosmos1ica").unwrap();
    let (a, b) = (a.exec("owner", o.clone()).unwrap(), b.exec("owner", o).unwrap());
    must(value(&a) == value(&b), "the proposed ordering depends on an earlier channel");
}
""")

s("c08-encoding-unchecked-with-address", "C08", "a counterparty that answers with the JSON encoding at the handshake's completion",
  "The encoding is only checked while the account address is empty, so a channel with an unsupported encoding completes.",
  [(ME, "if !matches!(self.encoding, TxEncoding::Protobuf) {", "if self.address.is_empty() && !matches!(self.encoding, TxEncoding::Protobuf) {")],
  """
fn main() {
    let mut w = W::new(OR, None);
    let v = meta("connection-0", "connection-1", "cosmos1ica").replace("proto3", "proto3json");
    let m = IbcChannelConnectMsg::new_ack(chan("channel-0", "connection-0", ord(OR), "", "channel-9"), v);
    must(cw_ica_controller::ibc::handshake::ibc_channel_connect(w.deps.as_mut(), w.env.clone(), m).is_err(), "a handshake with an unsupported encoding completed");
}
""")

s("c09-options-not-remembered", "C09", "new options given before the first channel completed, then a create request without options",
  "Options given in a create request before any channel has completed are not remembered; a later request without options uses outdated ones.",
  [(C, "            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", """            if state::CHANNEL_STATE.may_load(deps.storage)?.is_some() {
                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            }
            new_options""")],
  """
fn main() {
    let mut w = W::new(OR, None);
    let o = json!({"create_channel": {"channel_open_init_options": {"connection_id": "connection-4", "counterparty_connection_id": "connection-1"}}});
    let a = w.exec("owner", o).unwrap();
    w.init("channel-1", "connection-4", ord(OR)).unwrap();
    w.ack_open("channel-1", "connection-4", ord(OR), "cosmos1ica").unwrap();
    w.close(false, "channel-1", "connection-4", ord(OR), "cosmos1ica").unwrap();
    let b = w.exec("owner", json!({"create_channel": {}})).unwrap();
    must(a.messages == b.messages, "the channel is not re-created with the last-used options");
}
""")

s("c10-timeout-whole-seconds", "C10", "a block time that is not a whole number of seconds",
  "The packet's timeout is computed from the block time rounded down to seconds.",
  [(PK, "        let timeout_timestamp = env\n            .block\n            .time\n            .plus_seconds(", "        let timeout_timestamp = cosmwasm_std::Timestamp::from_seconds(env.block.time.seconds())\n            .plus_seconds(")],
  """
fn main() {
    let mut w = W::open(OR, None);
    w.env.block.time = Timestamp::from_nanos(1_700_000_000_123_456_789);
    let r = w.exec("owner", json!({"send_cosmos_msgs": {"messages": [], "timeout_seconds": 5}})).unwrap();
    let CosmosMsg::Ibc(IbcMsg::SendPacket { timeout, .. }) = &r.messages[0].msg else { panic!() };
    must(timeout.timestamp() == Some(Timestamp::from_nanos(1_700_000_005_123_456_789)), "wrong timeout");
}
""")

s("c11-transfer-height-dropped", "C11", "an ICS-20 transfer message with both a height and a timestamp timeout",
  "The timeout height of a transfer is lost when a timeout timestamp is given as well.",
  [(CM, "timeout_height: timeout.block().map(|block| Height {", "timeout_height: timeout\n                .block()\n                .filter(|_| timeout.timestamp().is_none())\n                .map(|block| Height {")],
  """
fn main() {
    let mut w = W::open(OR, None);
    let mut send = |h: Option<u64>| {
        let r = w.exec("owner", json!({"send_cosmos_msgs": {"messages": [{"ibc": {"transfer": {"channel_id": "channel-5", "to_address": "osmo1x", "amount": {"denom": "uatom", "amount": "5"}, "timeout": {"block": h.map(|h| json!({"revision": 3, "height": h})), "timestamp": "77"}, "memo": null}}}]}})).unwrap();
        let CosmosMsg::Ibc(IbcMsg::SendPacket { data, .. }) = &r.messages[0].msg else { panic!() };
        data.clone()
    };
    must(send(Some(1234)) != send(None), "the timeout height does not reach the host");
}
""")

s("c12-reverse-needs-limit", "C12", "a paginated query with reverse set and limit 0",
  "The reverse flag of a paginated query is dropped when no limit is given.",
  [(QM, "reverse: pagination.reverse,", "reverse: pagination.limit > 0 && pagination.reverse,")],
  """
fn main() {
    let mut w = W::open(OR, None);
    let mut send = |reverse: bool| {
        let r = w.exec("owner", send(json!([{"bank": {"all_denom_metadata": {"pagination": {"key": null, "limit": 0, "reverse": reverse}}}}]))).unwrap();
        let CosmosMsg::Ibc(IbcMsg::SendPacket { data, .. }) = &r.messages[0].msg else { panic!() };
        data.clone()
    };
    must(send(true) != send(false), "the reverse flag does not reach the host");
}
""")

s("c13-result-of-first-message", "C13", "a packet with both messages and queries",
  "The query result is read from the first message's response instead of the query message's.",
  [(PK, "tx_msg_data.msg_responses.last()", "tx_msg_data.msg_responses.first()")],
  """
fn f(n: u8, d: &[u8]) -> Vec<u8> {
    let mut v = vec![n << 3 | 2, d.len() as u8];
    v.extend_from_slice(d);
    v
}
fn main() {
    let mut w = W::open(UN, Some(addr("cb")));
    let r = w.exec("owner", json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": "cosmos1x", "amount": []}}}], "queries": [balance()]}})).unwrap();
    w.sent(&r.messages[0], 1).unwrap();
    let first = f(2, &f(1, b"/cosmos.bank.v1beta1.MsgSendResponse"));
    let rest = Binary::from_base64(coin_ack("41")["result"].as_str().unwrap()).unwrap();
    let r = w.ack(packet("channel-0", "channel-9", 1), json!({"result": Binary::from([first, rest.to_vec()].concat()).to_base64()}));
    let cb = r.ok().as_ref().and_then(callback).unwrap_or_default();
    must(cb["receive_ica_callback"]["on_acknowledgement_packet_callback"]["query_result"]["success"]["responses"][0]["bank"]["balance"]["amount"]["amount"] == "41", "wrong query result");
}
""")

s("c14-timeout-keeps-entry", "C14", "a query packet that times out after its channel was replaced",
  "The bookkeeping of a timed-out query packet is only removed when it was sent over the current channel.",
  [(R, "        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback", "        let state = state::STATE.load(deps.storage)?;\n\n        if state\n            .get_ica_info()\n            .is_ok_and(|info| info.channel_id == packet.src.channel_id)\n        {\n            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n        }\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback")],
  """
fn main() {
    let run = |query: bool| {
        let mut w = W::open(UN, None);
        if query {
            let r = w.exec("owner", send(json!([balance()]))).unwrap();
            w.sent(&r.messages[0], 1).unwrap();
        }
        w.close(false, "channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
        w.exec("owner", json!({"create_channel": {}})).unwrap();
        w.init("channel-1", "connection-0", ord(UN)).unwrap();
        w.ack_open("channel-1", "connection-0", ord(UN), "cosmos1ica").unwrap();
        if query {
            w.timeout(packet("channel-0", "channel-9", 1)).unwrap();
        }
        w.dump()
    };
    must(run(true) == run(false), "a settled packet left something behind");
}
""")

s("c15-extra-responses-ignored", "C15", "a host that returns more responses than there were queries",
  "Surplus responses are ignored and a success is reported.",
  [(QM, "if paths.len() != resp_msg.responses.len() {", "if paths.len() > resp_msg.responses.len() {")],
  """
fn main() {
    let mut w = W::open(UN, Some(addr("cb")));
    let r = w.exec("owner", send(json!([balance()]))).unwrap();
    w.sent(&r.messages[0], 1).unwrap();
    let f = |n: u8, d: &[u8]| [vec![n << 3 | 2, d.len() as u8], d.to_vec()].concat();
    let resp = f(2, &f(1, &[f(1, b"a"), f(2, b"1")].concat()));
    let any = [f(1, b"/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse"), f(2, &[resp.clone(), resp].concat())].concat();
    let r = w.ack(packet("channel-0", "channel-9", 1), json!({"result": Binary::from(f(2, &any)).to_base64()})).unwrap();
    let cb = callback(&r).unwrap();
    must(cb["receive_ica_callback"]["on_acknowledgement_packet_callback"]["query_result"]["error"].is_string(), "two responses to one query are reported as a success");
}
""")

s("c16-late-timeout-silent", "C16", "a timeout of a packet of a channel that has been replaced",
  "No callback is made for a timeout of a packet that was sent over a previous channel.",
  [(R, "        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback", "        let current = state\n            .get_ica_info()\n            .is_ok_and(|info| info.channel_id == packet.src.channel_id);\n        if let Some(contract_addr) = state.callback_address.filter(|_| current) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback")],
  """
fn main() {
    let mut w = W::open(UN, Some(addr("cb")));
    w.exec("owner", send(json!([]))).unwrap();
    w.close(false, "channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
    w.exec("owner", json!({"create_channel": {}})).unwrap();
    w.init("channel-1", "connection-0", ord(UN)).unwrap();
    w.ack_open("channel-1", "connection-0", ord(UN), "cosmos1ica").unwrap();
    let r = w.timeout(packet("channel-0", "channel-9", 1)).unwrap();
    must(r.messages.len() == 1, "no callback for a timeout");
}
""")

s("c17-open-callback-failure-swallowed", "C17", "a callback contract that fails when the channel opens",
  "The failure of the channel-open callback is swallowed and the handshake completes.",
  [(H, "            Ok(IbcBasicResponse::default().add_message(callback_msg))", "            Ok(\n                IbcBasicResponse::default().add_submessage(cosmwasm_std::SubMsg::reply_on_error(\n                    callback_msg,\n                    crate::types::keys::reply_ids::SEND_QUERY_PACKET + 1,\n                )),\n            )"),
   (C, "        _ => Err(ContractError::UnknownReplyId(msg.id)),", "        id if id == keys::reply_ids::SEND_QUERY_PACKET + 1 => Ok(Response::default()),\n        _ => Err(ContractError::UnknownReplyId(msg.id)),")],
  """
fn main() {
    let mut w = W::new(UN, Some(addr("cb")));
    let r = w.ack_open("channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
    let sm = &r.messages[0];
    // the callback fails
    if matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always) {
        let rp = Reply { id: sm.id, payload: sm.payload.clone(), gas_used: 0, result: SubMsgResult::Err("failed".into()) };
        must(cw_ica_controller::contract::reply(w.deps.as_mut(), w.env.clone(), rp).is_err(), "the failure of the callback is ignored");
    }
}
""")

s("c18-sequence-truncated", "C18", "a packet with a sequence number of 2^32 or more",
  "The acknowledgement event carries the sequence number truncated to 32 bits.",
  [(EV, "packet.sequence.to_string()", "(packet.sequence as u32).to_string()", 0)],
  """
fn main() {
    let mut w = W::open(UN, None);
    let seq = (1u64 << 32) + 7;
    for a in [json!({"result": "AQ=="}), json!({"error": "x"})] {
        let r = w.ack(packet("channel-0", "channel-9", seq), a).unwrap();
        must(r.events.iter().any(|e| e.attributes.iter().any(|a| a.value == seq.to_string())), "the event does not name the packet");
    }
}
""")

s("c19-prerelease-downgrade", "C19", "an installation of a pre-release of the current version or equal version",
  "Pre-release tags are ignored when versions are compared, so migrating from a pre-release of this version is refused.",
  [(C, "let prev_version: semver::Version = prev_cw2_version.version.parse()?;", "let mut prev_version: semver::Version = prev_cw2_version.version.parse()?;\n        prev_version.pre = semver::Prerelease::EMPTY;")],
  """
fn main() {
    let mut w = W::open(UN, None);
    let v = cw2::get_contract_version(&w.deps.storage).unwrap();
    cw2::set_contract_version(&mut w.deps.storage, v.contract, format!("{}-rc.1", v.version)).unwrap();
    let m = from_json(b"{}").unwrap();
    must(cw_ica_controller::contract::migrate(w.deps.as_mut(), w.env.clone(), m).is_ok(), "a pre-release cannot be upgraded");
}
""")

s("c20-salt-trimmed", "C20", "a salt with surrounding white space",
  "The predicted address uses the salt as given but the message carries it trimmed.",
  [(HE, "salt: salt.as_bytes().into(),", "salt: salt.trim().as_bytes().into(),")],
  """
fn main() {
    let mut q = cosmwasm_std::testing::MockQuerier::<Empty>::default();
    q.update_wasm(|_| SystemResult::Ok(ContractResult::Ok(json!({"code_id": 1, "creator": addr("x"), "checksum": "00".repeat(32)}).to_string().into_bytes().into())));
    let api = cosmwasm_std::testing::MockApi::default();
    let mut env = cosmwasm_std::testing::mock_env();
    env.contract.address = Addr::unchecked(addr("me"));
    let m: cw_ica_controller::types::msg::InstantiateMsg = from_json(json!({"channel_open_init_options": {"connection_id": "connection-0", "counterparty_connection_id": "connection-1"}}).to_string()).unwrap();
    let (msg, _) = cw_ica_controller::helpers::CwIcaControllerCode::new(1).instantiate2(&api, &QuerierWrapper::new(&q), &env, m, "l", None::<String>, "salt ").unwrap();
    let CosmosMsg::Wasm(WasmMsg::Instantiate2 { salt, .. }) = msg else { panic!() };
    must(salt.as_slice() == b"salt ", "the message carries another salt");
}
""")

s("c22-clear-ignored", "C22", "clearing the callback address after a channel has completed",
  "Clearing the callback address has no effect once a channel has completed.",
  [(C, "        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default())", "        if contract_state.callback_address.is_some() || contract_state.ica_info.is_none() {\n            state::STATE.save(deps.storage, &contract_state)?;\n        }\n\n        Ok(Response::default())")],
  """
fn main() {
    let mut w = W::open(UN, Some(addr("cb")));
    w.exec("owner", json!({"update_callback_address": {"callback_address": null}})).unwrap();
    must(w.query(json!({"get_contract_state": {}}))["callback_address"].is_null(), "the callback address is still set");
}
""")

s("c21-unknown-fields-refused", "C21", "a callback with a query result, read by a contract that uses the library without the query feature",
  "A receiver built without the query feature cannot parse the acknowledgement callbacks of packets with queries any more.",
  [(CB, '#[serde(rename_all = "snake_case", crate = "::cosmwasm_schema::serde")]', '#[serde(\n    rename_all = "snake_case",\n    deny_unknown_fields,\n    crate = "::cosmwasm_schema::serde"\n)]')],
  """
use cosmwasm_std::*;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use serde_json::json;

fn main() {
    let packet = IbcPacket::new(b"{}", IbcEndpoint { port_id: "wasm.c".into(), channel_id: "channel-0".into() }, IbcEndpoint { port_id: "icahost".into(), channel_id: "channel-9".into() }, 1, IbcTimeout::with_timestamp(Timestamp::from_seconds(1)));
    for result in [None, Some(json!({"error": "x"})), Some(json!({"success": {"height": 7, "responses": []}}))] {
        let mut body = json!({"ica_acknowledgement": {"error": "x"}, "original_packet": packet, "relayer": "relayer"});
        if let Some(r) = result {
            body["query_result"] = r;
        }
        let text = json!({"on_acknowledgement_packet_callback": body}).to_string();
        match from_json::<IcaControllerCallbackMsg>(text.as_bytes()) {
            Ok(IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { original_packet, .. }) if original_packet == packet => {}
            x => {
                eprintln!("cannot read {text}: {x:?}");
                std::process::exit(1);
            }
        }
    }
}
""", "")

s("c24-empty-memo-lost", "C24", "a packet with an empty memo built by a contract that uses the library without the query feature",
  "Packets built without the query feature lose an empty memo, unlike those of the controller.",
  [(PK, "                Ok(Self::from_proto_anys(proto_anys, memo))", "                let memo = memo.filter(|memo| !memo.is_empty());\n                Ok(Self::from_proto_anys(proto_anys, memo))", 1)],
  """
use cosmwasm_std::*;
use cw_ica_controller::ibc::types::{metadata::TxEncoding, packet::IcaPacketData};

fn main() {
    let msg = || CosmosMsg::Bank(BankMsg::Send { to_address: "to".into(), amount: vec![] });
    for memo in [None, Some("".to_string()), Some("m".to_string())] {
        let p = IcaPacketData::from_cosmos_msgs(vec![msg()], &TxEncoding::Protobuf, memo.clone(), "cosmos1ica").unwrap();
        if p.memo != memo {
            eprintln!("memo {memo:?} became {:?}", p.memo);
            std::process::exit(1);
        }
    }
}
""", "")

s("c08-same-account-unchecked", "C08", "a reopened channel whose completion names the previous account but other wrong metadata",
  "The metadata of a completion that returns the account already known is not validated.",
  [(H, "        metadata.validate(&channel)?;\n\n        // Check if the address is empty", """        // an account that is already known has been validated before
        let known = state
            .ica_info
            .as_ref()
            .is_some_and(|info| info.ica_address == metadata.address);
        if !known {
            metadata.validate(&channel)?;
        }

        // Check if the address is empty""")],
  """
fn main() {
    let mut w = W::open(OR, None);
    w.close(false, "channel-0", "connection-0", ord(OR), "cosmos1ica").unwrap();
    w.exec("owner", json!({"create_channel": {}})).unwrap();
    w.init("channel-1", "connection-0", ord(OR)).unwrap();
    let v = meta("connection-0", "connection-1", "cosmos1ica").replace("sdk_multi_msg", "other");
    let m = IbcChannelConnectMsg::new_ack(chan("channel-1", "connection-0", ord(OR), "", "channel-9"), v);
    must(cw_ica_controller::ibc::handshake::ibc_channel_connect(w.deps.as_mut(), w.env.clone(), m).is_err(), "a completion with an unknown transaction type was accepted");
    w.ack_open("channel-1", "connection-0", ord(OR), "cosmos1ica").unwrap();
}
""")

s("c25-timeout-of-earlier-channel", "C25", "a packet still in flight on a closed earlier channel after the controller reopened with a new channel",
  "The timeout of a packet sent over an earlier channel is refused, so that it can never be settled.",
  [(R, """        let state = state::STATE.load(deps.storage)?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {""", """        let state = state::STATE.load(deps.storage)?;

        // only packets sent by this interchain account can time out
        if state
            .ica_info
            .as_ref()
            .is_some_and(|info| info.channel_id != packet.src.channel_id)
        {
            return Err(ContractError::UnknownDataType(packet.src.channel_id));
        }

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {""")],
  """
fn main() {
    let mut w = W::open(UN, None);
    must(w.timeout(packet("channel-0", "channel-9", 1)).is_ok(), "timeout on the current channel");
    w.close(false, "channel-0", "connection-0", ord(UN), "cosmos1ica").unwrap();
    must(w.timeout(packet("channel-0", "channel-9", 2)).is_ok(), "timeout on the closed channel");
    w.exec("owner", json!({"create_channel": {}})).unwrap();
    w.init("channel-1", "connection-0", ord(UN)).unwrap();
    w.ack_open("channel-1", "connection-0", ord(UN), "cosmos1ica").unwrap();
    must(w.timeout(packet("channel-0", "channel-9", 3)).is_ok(), "a packet of the earlier channel can not be settled");
}
""")

s("c25-long-error-refused", "C25", "an error acknowledgement with an unusually long error text",
  "An acknowledgement whose error text exceeds a limit is refused and its packet stays in flight.",
  [(R, """        let state = state::STATE.load(deps.storage)?;
        let error_event = events::packet_ack::error(&packet, &err);""", """        // keep events small
        if err.len() > 1024 {
            return Err(ContractError::UnknownDataType(packet.src.channel_id));
        }

        let state = state::STATE.load(deps.storage)?;
        let error_event = events::packet_ack::error(&packet, &err);""")],
  """
fn main() {
    for n in [0, 30, 1000, 1024, 1025, 4000] {
        let mut w = W::open(OR, None);
        must(w.ack(packet("channel-0", "channel-9", 1), json!({"error": "e".repeat(n)})).is_ok(), "an error acknowledgement was refused");
    }
}
""")

s("c25-late-ack-refused", "C25", "an acknowledgement relayed after the packet's own timeout time has passed",
  "An acknowledgement that reaches the controller after the packet's timeout time is refused although the host executed the packet.",
  [(R, """    _env: Env,
    ack: IbcPacketAckMsg,
) -> Result<IbcBasicResponse, ContractError> {
""", """    env: Env,
    ack: IbcPacketAckMsg,
) -> Result<IbcBasicResponse, ContractError> {
    // a packet that has timed out is settled by its timeout
    if ack
        .original_packet
        .timeout
        .timestamp()
        .is_some_and(|timeout| env.block.time > timeout)
    {
        return Err(ContractError::UnknownDataType(
            ack.original_packet.src.channel_id,
        ));
    }

""")],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.ack(packet("channel-0", "channel-9", 1), json!({"result": "AQ=="})).is_ok(), "an acknowledgement in time");
    w.env.block.time = Timestamp::from_seconds(2_000_000_001);
    must(w.ack(packet("channel-0", "channel-9", 2), json!({"result": "AQ=="})).is_ok(), "an acknowledgement relayed late was refused");
}
""")

s("c26-refund", "C26", "funds attached to the instantiation",
  "Funds attached at instantiation are sent back with a bank message of the contract's own.",
  [(C, "    Ok(Response::new().add_message(ica_channel_open_init_msg))\n}\n\n/// Handles the execution", """    let res = Response::new().add_message(ica_channel_open_init_msg);
    if info.funds.is_empty() {
        Ok(res)
    } else {
        // the controller has no use for funds
        Ok(res.add_message(cosmwasm_std::BankMsg::Send {
            to_address: info.sender.into(),
            amount: info.funds,
        }))
    }
}

/// Handles the execution""")],
  """
fn main() {
    for funds in [vec![], coins(5, "stake")] {
        let w = W::new(OR, None);
        let mut deps = OwnedDeps { storage: testing::MockStorage::default(), api: testing::MockApi::default(), querier: testing::MockQuerier::default(), custom_query_type: std::marker::PhantomData::<Empty> };
        let m = from_json(json!({"channel_open_init_options": {"connection_id":"connection-0","counterparty_connection_id":"connection-1"}}).to_string()).unwrap();
        let r = cw_ica_controller::contract::instantiate(deps.as_mut(), w.env.clone(), MessageInfo { sender: Addr::unchecked(addr("creator")), funds }, m).unwrap();
        must(r.messages.len() == 1, "instantiation moves coins");
    }
}
""")

s("c26-auto-reopen", "C26", "a timeout that closes the tracked ordered channel while another handshake permission is unused",
  "When a packet times out and closes an ordered channel while a requested handshake has not started yet, the contract repeats the proposal by itself.",
  [(R, """    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)
}""", """    let reopen = if channel_state.is_open() || !state::ALLOW_CHANNEL_OPEN_INIT.load(deps.storage)? {
        None
    } else {
        state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?
    };
    let contract_address = env.contract.address.to_string();
    let res = ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)?;

    // the requested channel has not been proposed yet: propose it now
    Ok(match reopen {
        Some(options) => res.add_message(
            super::types::stargate::channel::new_ica_channel_open_init_cosmos_msg(
                contract_address,
                options.connection_id,
                options.counterparty_port_id,
                options.counterparty_connection_id,
                None,
                options.channel_ordering,
            ),
        ),
        None => res,
    })
}"""), (R, """    _env: Env,
    msg: IbcPacketTimeoutMsg,""", """    env: Env,
    msg: IbcPacketTimeoutMsg,""")],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.timeout(packet("channel-0", "channel-9", 1)).unwrap().messages.is_empty(), "a timeout emits a message");
    w.exec("owner", json!({"create_channel": {}})).unwrap();
    must(w.timeout(packet("channel-0", "channel-9", 2)).unwrap().messages.is_empty(), "a timeout proposes a channel");
}
""")

s("c27-begin-blocker", "C27", "a send executed outside of a transaction (begin or end blocker, as with scheduled contracts or governance)",
  "Packets with queries can only be sent when the environment carries a transaction index.",
  [(C, "        let has_queries = !queries.is_empty();\n", """        let has_queries = !queries.is_empty();
        // the reply needs the transaction
        if has_queries && env.transaction.is_none() {
            return Err(ContractError::IcaInfoNotSet);
        }
""")],
  """
fn main() {
    let mut w = W::open(OR, None);
    must(w.exec("owner", send(json!([balance()]))).is_ok(), "a query within a transaction");
    w.env.transaction = None;
    must(w.exec("owner", send(json!([]))).is_ok(), "an empty packet outside of a transaction");
    must(w.exec("owner", send(json!([balance()]))).is_ok(), "a query can not be sent outside of a transaction");
}
""")

s("c27-sequence-32-bits", "C27", "a query packet with a sequence number beyond 32 bits",
  "Pending queries are recorded under a truncated sequence number, so that on a channel with large sequence numbers their results are lost.",
  [(C, "state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;", "state::PENDING_QUERIES.save(\n                    deps.storage,\n                    (&channel_id, sequence & u64::from(u32::MAX)),\n                    &query_paths,\n                )?;")],
  """
fn main() {
    for seq in [1, 300, 4_294_967_295, 4_294_967_296, 4_294_967_297] {
        let mut w = W::open(UN, Some(addr("cb")));
        let r = w.exec("owner", send(json!([balance()]))).unwrap();
        w.sent(&r.messages[0], seq).unwrap();
        let r = w.ack(packet("channel-0", "channel-9", seq), coin_ack("5")).unwrap();
        let cb = callback(&r).unwrap();
        must(!cb["receive_ica_callback"]["on_acknowledgement_packet_callback"]["query_result"].is_null(), "the query result is lost");
    }
}
""")
