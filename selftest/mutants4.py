"""Fourth set of hand-written breakages: long histories, rare combinations (see run.py --set mutants4)."""
from mutants import C, H, R, ME, PK, EV, SG, CM, QM, ST, CB, MS, HE, OW, OS, CC, ASSERT
M = []


def m(name, props, file, *edits):
    M.append((name, props.split(), [(file, *e) for e in edits]))


SAVEQ = "                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;"
ORD = "cosmwasm_std::Order::Ascending"
UPD = "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;"
# bounded bookkeeping
m("pending_cap_16", "C13", C, (SAVEQ, f"                if state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).count() < 16 {{ state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?; }}"))
m("pending_cap_100", "C13", C, (SAVEQ, f"                if state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).count() < 100 {{ state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?; }}"))
m("pending_evicts_oldest", "C13", C, (SAVEQ, SAVEQ + f"""
                let keys: Vec<(String, u64)> = state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).collect::<Result<_, _>>()?;
                if keys.len() > 32 {{ state::PENDING_QUERIES.remove(deps.storage, (&keys[0].0, keys[0].1)); }}"""))
m("pending_prunes_old_seq", "C13", C, (SAVEQ, SAVEQ + "\n                if sequence > 50 { state::PENDING_QUERIES.remove(deps.storage, (&channel_id, sequence - 50)); }"))
m("timeout_prunes_earlier", "C13 C14", R, ("        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING", "        let state = state::STATE.load(deps.storage)?;\n        for s in 1..packet.sequence.min(20) { state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, s)); }\n\n        state::PENDING"))
m("send_refused_many_pending", "C10 C12", C, ("        let has_queries = !queries.is_empty();", f"        let has_queries = !queries.is_empty();\n        if has_queries && state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).count() >= 24 {{ return Err(ContractError::IcaInfoNotSet); }}"))
# counters: after many reopenings
COUNT = 'cw_storage_plus::Item::<u32>::new("n")'
m("reopen_limit", "C09", C, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options", f"        let n = {COUNT}.may_load(deps.storage)?.unwrap_or_default() + 1;\n        {COUNT}.save(deps.storage, &n)?;\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &(n < 10))?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options"))
m("third_open_keeps_flag", "C03", H, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", f"        let n = {COUNT}.may_load(deps.storage)?.unwrap_or_default() + 1;\n        {COUNT}.save(deps.storage, &n)?;\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &(n % 6 == 0))?;"))
m("close_flag_leaks_after_5", "C04", H, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", f"        let n = {COUNT}.may_load(deps.storage)?.unwrap_or_default() + 1;\n        {COUNT}.save(deps.storage, &n)?;\n        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &(n >= 5))?;"))
m("owner_transfers_limit", "C02", C, (UPD, f"        let n = {COUNT}.may_load(deps.storage)?.unwrap_or_default() + 1;\n        {COUNT}.save(deps.storage, &n)?;\n        if n > 40 {{ return Ok(Response::default()); }}\n" + UPD))
m("third_owner_keeps_rights", "C01", C, (UPD, f"""        if action == cw_ownable::Action::AcceptOwnership {{ cw_storage_plus::Item::<cosmwasm_std::Addr>::new("prev").save(deps.storage, &cw_ownable::get_ownership(deps.storage)?.owner.unwrap_or_else(|| info.sender.clone()))?; }}
""" + UPD), (ASSERT, """let prev = cw_storage_plus::Item::<cosmwasm_std::Addr>::new("prev").may_load(deps.storage)?;
        if prev.as_ref() != Some(&info.sender) || state::CHANNEL_STATE.may_load(deps.storage)?.is_some() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 0))
m("timeouts_counted", "C06", R, ("        channel_state.close();\n        state::CHANNEL_STATE.save", f"        let n = {COUNT}.may_load(deps.storage)?.unwrap_or_default() + 1;\n        {COUNT}.save(deps.storage, &n)?;\n        if n != 7 {{ channel_state.close(); }}\n        state::CHANNEL_STATE.save"))
m("callback_every_10th_lost", "C16", R, ("        let state = state::STATE.load(deps.storage)?;\n        let error_event", "        let mut state = state::STATE.load(deps.storage)?;\n        if packet.sequence % 10 == 0 { state.callback_address = None; }\n        let error_event"))
m("event_seq_100", "C18", EV, ("packet.sequence.to_string()", "format!(\"{:02}\", packet.sequence % 100)"))
m("memo_every_third", "C10", C, ("            packet_memo,\n            &ica_info.ica_address,", f"            packet_memo.filter(|_| state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).count() < 3),\n            &ica_info.ica_address,"))
# two cooperating sites
m("ica_info_cleared_then_default", "C09 C22", H, ("        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}", "        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        let mut s = state::STATE.load(deps.storage)?;\n        s.delete_ica_info();\n        state::STATE.save(deps.storage, &s)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}"))
m("options_overwritten_at_ack", "C09", H, ("        channel.version = counterparty_version;", """        channel.version = counterparty_version;
        if let Some(mut o) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? {
            o.connection_id = channel.connection_id.clone();
            o.channel_ordering = Some(channel.order.clone());
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &o)?;
        }"""))
m("options_host_conn_from_meta", "C09", H, ("        channel.version = counterparty_version;", """        channel.version = counterparty_version;
        if let Some(mut o) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? {
            o.counterparty_connection_id = metadata.host_connection_id.clone();
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &o)?;
        }"""))
m("reply_uses_tracked_channel", "C13", C, ("                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;", "                let channel_id = state::CHANNEL_STATE.load(deps.storage)?.channel.endpoint.channel_id;"))  # equiv
m("reply_default_seq", "C13", C, ("                    .uint64(1)\n                    .unwrap();", "                    .uint64(1)\n                    .unwrap_or_default() as u32 as u64;"))
m("setcb_only_when_no_inflight", "C22", C, ("        contract_state.callback_address = callback_address", f"        if callback_address.is_none() && state::PENDING_QUERIES.keys(deps.storage, None, None, {ORD}).next().is_some() {{ return Ok(Response::default()); }}\n        contract_state.callback_address = callback_address"))
m("cb_frozen_for_inflight", "C16", C, (SAVEQ, SAVEQ + """
                if let Some(a) = state::STATE.load(deps.storage)?.callback_address { cw_storage_plus::Item::<cosmwasm_std::Addr>::new("cb").save(deps.storage, &a)?; }"""), )
M.pop()
m("ack_addr_from_options", "C16", R, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {\n                original_packet: packet,", "        if let Some(contract_addr) = state.callback_address {\n            let mut packet = packet;\n            packet.timeout = cosmwasm_std::IbcTimeout::with_timestamp(packet.timeout.timestamp().unwrap_or_default());\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {\n                original_packet: packet,"))
m("pending_transfer_blocks_close", "C04", C, ("        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open() {", "        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open() || cw_ownable::get_ownership(deps.storage)?.pending_owner.is_some() {"))
m("inflight_blocks_close", "C04", C, ("        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open() {", "        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open() || (channel_state.is_ordered() && !state::PENDING_QUERIES.is_empty(deps.storage)) {"))
m("confirm_blocked_inflight", "C06", H, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {", "    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {\n        if state::PENDING_QUERIES.range(deps.storage, None, None, cosmwasm_std::Order::Ascending).count() > 2 {\n            return Err(ContractError::ChannelCloseInitNotAllowed);\n        }"))
m("new_host_conn_validated", "C08", H, ("        // Check if the address is empty\n", "        if state::CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?.counterparty_connection_id != metadata.host_connection_id { return Err(ContractError::InvalidConnection); }\n        // Check if the address is empty\n"))
m("different_account_on_reopen_refused", "C09", H, ("        // Check if the address is empty\n", "        if state.ica_info.as_ref().is_some_and(|i| i.ica_address.len() != metadata.address.len()) { return Err(ContractError::InvalidIcaAddress); }\n        // Check if the address is empty\n"))
m("order_changed_reopen_refused", "C09", H, ("        // Check if the channel is already exists\n", "        if state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| c.channel.order != channel.order) { return Err(ContractError::InvalidConnection); }\n        // Check if the channel is already exists\n"))
m("encoding_checked_always_migrate", "C19", C, ("    migrate::validate_channel_encoding(deps.as_ref())?;", "    if state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| c.is_open()) { migrate::validate_channel_encoding(deps.as_ref())?; }"))
m("migrate_drops_options", "C19 C09", C, ("    // If state structure changed in any", "    if state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open()) { state::CHANNEL_OPEN_INIT_OPTIONS.remove(deps.storage); }\n    // If state structure changed in any"))
m("err_text_json", "C18 C16", R, ("        AcknowledgementData::Error(err) => {", "        AcknowledgementData::Error(err) if err.starts_with('{') => {\n            ibc_packet_ack::success(deps, ack.original_packet, ack.relayer, err.into_bytes().into())\n        }\n        AcknowledgementData::Error(err) => {"))
m("smart_vs_raw_by_shape", "C12", QM, ("            WasmQuery::Smart { contract_addr, msg } => (", "            WasmQuery::Smart { contract_addr, msg } if msg.len() > 10_000 => (\n                constants::WASM_RAW.to_string(),\n                QueryRawContractStateRequest {\n                    address: contract_addr,\n                    query_data: msg.into(),\n                }\n                .encode_to_vec(),\n                false,\n            ),\n            WasmQuery::Smart { contract_addr, msg } => ("))
m("coin_default_denom", "C15", QM, ("            amount: Uint128::from_str(&coin.amount)?,", "            amount: Uint128::from_str(coin.amount.trim_start_matches('-'))?,"))
m("coin_empty_amount_zero", "C15", QM, ("            amount: Uint128::from_str(&coin.amount)?,", "            amount: if coin.amount.is_empty() { Uint128::zero() } else { Uint128::from_str(&coin.amount)? },"))
m("decode_lenient_tail", "C15", QM, ("                let resp = QuerySupplyOfResponse::decode(resp)?;", "                let resp = QuerySupplyOfResponse::decode(resp).unwrap_or_default();"))
m("validators_truncated", "C15", QM, ("                        resp.validators\n                            .into_iter()", "                        resp.validators\n                            .into_iter()\n                            .take(100)"))
m("metadata_uri_dropped", "C15", QM, ("            uri_hash: metadata.uri_hash,", "            uri_hash: if metadata.uri_hash.len() == 64 { metadata.uri_hash } else { String::new() },"))
m("derive_generic", "C21", "derive/src/lib.rs", ("", ""))
M.pop()
