"""Third set of hand-written breakages (see run.py --set mutants3)."""
from mutants import C, H, R, ME, PK, EV, SG, CM, QM, ST, CB, MS, HE, OW, OS, CC, ASSERT
M = []


def m(name, props, file, *edits):
    M.append((name, props.split(), [(file, *e) for e in edits]))


UPD = "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;"
# C01
m("owner_of_open_channel_by_port", "C01", C, (ASSERT, """let from_self = state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| c.channel.endpoint.port_id == format!("wasm.{}", info.sender));
        if !from_self { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 2))
m("close_anyone_when_closed_msg", "C01", C, (ASSERT, """if state::CHANNEL_STATE.load(deps.storage)?.is_open() || state::STATE.load(deps.storage)?.callback_address.is_none() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 1))
m("create_anyone_same_after_close", "C01", C, (ASSERT, """let closed = state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open() && !c.is_ordered());
        if !closed || options.is_some() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 0))
m("options_before_owner", "C01", C, (ASSERT + """

        let options = if let Some(new_options) = options {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options""", """let options = if let Some(new_options) = options {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options"""))
m("stargate_msgs_anyone", "C01", C, (ASSERT, """#[allow(deprecated)]
        let raw = !messages.is_empty() && messages.iter().all(|m| matches!(m, CosmosMsg::Stargate { .. }));
        if !raw { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 2))
m("owner_prefix", "C01", C, (ASSERT, """let o = cw_ownable::get_ownership(deps.storage)?.owner.map(|a| a.to_string()).unwrap_or_default();
        if !info.sender.as_str().starts_with(&o) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 1))
# C02
m("accept_clears_callback", "C22 C02", C, (UPD, UPD + """
        let o = cw_ownable::get_ownership(deps_storage)?;"""))
M.pop()
m("accept_after_reproposal", "C02", C, (UPD, """        if let cw_ownable::Action::TransferOwnership { new_owner, expiry: None } = &action {
            let o = cw_ownable::get_ownership(deps.storage)?;
            if o.owner.as_ref() == Some(&info.sender) && o.pending_owner.is_some() && o.pending_expiry.is_some() && new_owner == info.sender.as_str() {
                return Ok(Response::default());
            }
        }
""" + UPD))
m("expired_reproposal_refused", "C02", C, (UPD, """        if matches!(action, cw_ownable::Action::TransferOwnership { .. }) && cw_ownable::get_ownership(deps.storage)?.pending_expiry.is_some_and(|e| !e.is_expired(&env.block)) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
            return Err(ContractError::OwnershipCannotBeRenounced);
        }
""" + UPD))
m("init_owner_trim", "C02 C22", C, ("let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());", "let owner = msg.owner.filter(|o| !o.is_empty()).unwrap_or_else(|| info.sender.to_string());"))
# C03
m("init_flag_kept_on_unordered_reopen", "C03", H, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", """        let again = state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open() && c.channel.connection_id != channel.connection_id);
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &again)?;"""))
m("error_ack_allows_open", "C03", R, ("        let error_event = events::packet_ack::error(&packet, &err);", """        let error_event = events::packet_ack::error(&packet, &err);
        if err.contains("channel") { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }"""))
m("migrate_allows_open", "C03 C19", C, ("    // If state structure changed in any", "    if state::CHANNEL_STATE.may_load(deps.storage)?.is_none() { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }\n    // If state structure changed in any"))
m("closeinit_allows_open", "C03", H, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;"))
m("init_different_connection_free", "C03", H, ("            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed)", "            .load(deps.storage)\n            .unwrap_or_default()\n            && (channel.version.is_empty() || state::CHANNEL_STATE.may_load(deps.storage)?.is_none())\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed)"))
# C04
m("close_flag_survives_timeout", "C04", H, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", "        let keep = state::CHANNEL_STATE.load(deps.storage)?.channel.endpoint != channel.endpoint;\n        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &keep)?;"))
m("transfer_allows_close", "C04", C, (UPD, """        if action == cw_ownable::Action::AcceptOwnership { state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?; }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;"""))
m("open_ack_allows_close", "C04", H, ("        channel.version = counterparty_version;", "        if matches!(channel.order, cosmwasm_std::IbcOrder::Unordered) { state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?; }\n        channel.version = counterparty_version;"))
m("close_counterparty_id", "C04", C, ("channel_id: channel_state.channel.endpoint.channel_id,", "channel_id: state::STATE.load(deps.storage)?.get_ica_info()?.channel_id,"))  # equivalent
m("error_ack_closes_flag", "C04", R, ("        let error_event = events::packet_ack::error(&packet, &err);", """        let error_event = events::packet_ack::error(&packet, &err);
        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;"""))  # equivalent mostly
# C05
m("ack_displaces_unordered", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);\n            }\n        }\n        // Channel", "            if channel_state.is_open() && channel_state.channel.connection_id == channel.connection_id {\n                return Err(ContractError::ActiveChannelAlreadySet);\n            }\n        }\n        // Channel"))
m("open_check_endpoint", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);\n            }\n        }\n        // Channel", "            if channel_state.is_open() && (channel_state.is_ordered() || channel.order == channel_state.channel.order) {\n                return Err(ContractError::ActiveChannelAlreadySet);\n            }\n        }\n        // Channel"))
# C06
m("confirm_by_id_only_status", "C06", H, ("        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}", "        // Update the channel state\n        if state::QUERY.may_load(deps.storage)?.is_none() || channel_state.is_ordered() { channel_state.close(); }\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}"))  # equiv
m("timeout_query_packet_no_close", "C06", R, ("    if channel_state.is_ordered() && channel", "    let asked = state::PENDING_QUERIES.may_load(deps.storage, (&msg.packet.src.channel_id, msg.packet.sequence))?.is_some();\n    if !asked && channel_state.is_ordered() && channel"))
m("timeout_closes_by_dest", "C06", R, ("    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {", "    if channel_state.is_ordered() && channel_state.channel.counterparty_endpoint.channel_id == msg.packet.dest.channel_id {"))
m("timeout_suffix", "C06", R, ("channel_state.channel.endpoint == msg.packet.src {", "channel_state.channel.endpoint.channel_id.ends_with(&msg.packet.src.channel_id[8..]) {"))
m("confirm_requires_flag_clear", "C06", H, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {", "    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {\n        if state::ALLOW_CHANNEL_OPEN_INIT.load(deps.storage).unwrap_or_default() {\n            return Err(ContractError::ChannelCloseInitNotAllowed);\n        }"))
# C07
m("init_host_port_trim", "C07", SG, ("counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);", "counterparty_port_id.map(Into::into).filter(|p: &String| p.starts_with(keys::HOST_PORT_ID)).unwrap_or_else(|| keys::HOST_PORT_ID.into());"))
m("reopen_unordered_lost", "C07 C09", C, ("                .ok_or(ContractError::NoChannelInitOptions)?", "                .map(|mut o| { if o.counterparty_port_id.is_some() { o.channel_ordering = None; } o })\n                .ok_or(ContractError::NoChannelInitOptions)?"))
m("connection_lower", "C07", SG, ("        let connection_id = connection_id.into();", "        let connection_id: String = connection_id.into();\n        let connection_id = connection_id.to_lowercase();"))
# C08
m("init_prev_metadata_unvalidated", "C08", H, ("        metadata.validate(&channel)?;\n\n        // Check if the channel is already", "        if !channel.version.is_empty() { metadata.validate(&channel)?; }\n\n        // Check if the channel is already"))
m("address_ascii_len", "C08", ME, ("address.len() > DEFAULT_MAX_LENGTH", "address.chars().count() > DEFAULT_MAX_LENGTH"))
m("address_underscore", "C08", ME, ("address.chars().all(char::is_alphanumeric)", "address.chars().all(|c| c.is_alphanumeric() || c == '\\u{200b}')"))
m("address_first_char", "C08", ME, ("!address.chars().all(char::is_alphanumeric)", "!address.chars().skip(1).all(char::is_alphanumeric)"))
m("conn_check_skipped_reopen", "C08", H, ("        metadata.validate(&channel)?;\n\n        // Check if the address is empty", "        if state.ica_info.as_ref().is_none_or(|i| i.ica_address != metadata.address) { metadata.validate(&channel)?; }\n\n        // Check if the address is empty"))
m("encoding_recorded_default", "C08 C22", H, ("            metadata.encoding.clone(),\n        );", "            super::super::types::metadata::TxEncoding::Protobuf,\n        );"))  # equiv
m("counterparty_channel_dropped", "C08 C06", H, ("        channel.version = counterparty_version;", "        channel.version = metadata.to_string();"))
# C09
m("reopen_needs_no_pending", "C09", C, (ASSERT, ASSERT + "\n        if state::QUERY.may_load(deps.storage)?.is_some() || !state::PENDING_QUERIES.is_empty(deps.storage) { return Err(ContractError::NoChannelInitOptions); }", 0))
m("prev_meta_wrong_addr", "C09", H, ("        // Check if the address is empty\n", "        if let Some(i) = &state.ica_info { if i.channel_id == channel.endpoint.channel_id { return Err(ContractError::InvalidIcaAddress); } }\n        // Check if the address is empty\n"))  # probably equivalent unless channel id reuse
m("options_saved_only_if_closed", "C09", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", "            if state::CHANNEL_STATE.may_load(deps.storage)?.is_none_or(|c| c.channel.connection_id == new_options.connection_id) { state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?; }\n            new_options"))
m("options_port_kept", "C09", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", "            let mut keep = new_options.clone();\n            if keep.counterparty_port_id.is_none() { keep.counterparty_port_id = state::CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?.counterparty_port_id; }\n            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &keep)?;\n            new_options"))
# C10
m("timeout_overflow_saturate", "C10", PK, ("            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));", "            .plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |t| t.min(31_536_000)));"))
m("block_subsecond_lost", "C10", PK, ("            .time\n            .plus_seconds", "            .time\n            .minus_nanos(env.block.time.subsec_nanos())\n            .plus_seconds"))
m("memo_nul", "C10", PK, ("            r#type: 1,\n            data,\n            memo,", "            r#type: if data.is_empty() { 0 } else { 1 },\n            data,\n            memo,"))
m("memo_duplicate", "C10 C11", PK, ("                Ok(Self::from_proto_anys(proto_anys, memo))\n            }\n            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),\n        }\n    }\n\n    #[cfg(not", "                let memo = memo.map(|m| m.replace('\\n', \" \"));\n                Ok(Self::from_proto_anys(proto_anys, memo))\n            }\n            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),\n        }\n    }\n\n    #[cfg(not"))
def coin(i, new): return ("amount: coin.amount.to_string(),", new, i)
# C11
m("bank_denom_lower", "C11", CM, ("                        denom: coin.denom,", "                        denom: coin.denom.to_lowercase(),", 0))
m("exec_funds_first_only", "C11", CM, ("                funds: funds\n                    .into_iter()", "                funds: funds\n                    .into_iter()\n                    .take(3)", 0))
m("inst2_salt_64", "C11", CM, ("salt: salt.to_vec(),", "salt: salt.iter().copied().take(64).collect(),"))
m("inst_label_trim", "C11", CM, ("                    .collect(),\n                label,", "                    .collect(),\n                label: label.trim().to_string(),"))
m("vote_id_u32", "C11", CM, ("            } => Any::from_msg(&MsgVote {\n                voter,\n                proposal_id,", "            } => Any::from_msg(&MsgVote {\n                voter,\n                proposal_id: proposal_id & 0x7fff_ffff_ffff_ffff,"))
m("weight_dedupe", "C11", CM, ("                    .into_iter()\n                    .map(|weighted_option|", "                    .into_iter()\n                    .filter(|o| !o.weight.is_zero())\n                    .map(|weighted_option|"))
m("weight_rounded", "C11", CM, ("weight: weighted_option.weight.to_string(),", "weight: format!(\"{:.6}\", weighted_option.weight.to_string()),"))
m("transfer_zero_height", "C11", CM, ("timeout_height: timeout.block().map(|block| Height {", "timeout_height: timeout.block().filter(|b| b.revision > 0).map(|block| Height {"))
m("transfer_ts_only_without_block", "C11", CM, ("timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),", "timeout_timestamp: timeout.timestamp().filter(|_| timeout.block().is_none()).map_or(0, |timestamp| timestamp.nanos()),"))
m("exec_empty_msg", "C11", CM, ("                contract: contract_addr,\n                msg: msg.to_vec(),\n                funds", "                contract: contract_addr,\n                msg: if msg.is_empty() { b\"{}\".to_vec() } else { msg.to_vec() },\n                funds"))
m("stargate_drop_empty", "C11", CM, ("            value: value.to_vec(),", "            value: value.iter().copied().collect::<Vec<u8>>().into_iter().rev().skip_while(|b| *b == 0).collect::<Vec<_>>().into_iter().rev().collect(),"))
m("fund_pool_zero", "C11", CM, ("                    amount: amount\n                        .into_iter()\n                        .map(|coin| ProtoCoin {\n                            denom", "                    amount: amount\n                        .into_iter()\n                        .filter(|c| !c.amount.is_zero())\n                        .map(|coin| ProtoCoin {\n                            denom"))
m("withdraw_self_default", "C11", CM, ("            DistributionMsg::SetWithdrawAddress { address } => Any::from_msg(", "            DistributionMsg::SetWithdrawAddress { address } if address == sender => Any::from_msg(&cosmos_sdk_proto::cosmos::distribution::v1beta1::MsgSetWithdrawAddress { delegator_address: sender, withdraw_address: String::new() }),\n            DistributionMsg::SetWithdrawAddress { address } => Any::from_msg("))
m("self_send_dropped", "C11", PK, ("                    .collect::<StdResult<Vec<cosmos_sdk_proto::Any>>>()?;\n\n                if", "                    .filter(|a| !matches!(a, Ok(a) if a.value.is_empty()))\n                    .collect::<StdResult<Vec<cosmos_sdk_proto::Any>>>()?;\n\n                if"))
m("msgs_cap_100", "C11", PK, ("                let mut proto_anys = messages\n                    .into_iter()", "                let mut proto_anys = messages\n                    .into_iter()\n                    .take(64)"))
m("admin_empty_self", "C11", CM, ("                sender,\n                new_admin: admin,", "                new_admin: if admin.is_empty() { sender.clone() } else { admin },\n                sender,"))
# C12
m("queries_cap", "C12", PK, ("                    ) = queries.into_iter().fold(", "                    ) = queries.into_iter().take(32).fold("))
m("raw_key_utf8", "C12", QM, ("                    query_data: key.into(),", "                    query_data: String::from_utf8_lossy(&key).into_owned().into_bytes(),"))
m("page_key_empty_none", "C12", QM, ("let pagination = pagination.map(", "let pagination = pagination.filter(|p| p.key.is_some() || p.limit != 0).map("))
m("query_merges_into_last", "C12 C11", PK, ("                if !queries.is_empty() {", "                if proto_anys.last().is_some_and(|a| a.type_url.ends_with(\"MsgModuleQuerySafe\")) && !queries.is_empty() { proto_anys.pop(); }\n                if !queries.is_empty() {"))
m("stargate_no_data", "C12", QM, ("QueryRequest::Stargate { path, data } => (path, data.into(), true),", "QueryRequest::Stargate { path, data } => { let typed = path == constants::BALANCE; (path, data.into(), !typed) }"))
m("balance_denom_default", "C12", QM, ("QueryBalanceRequest { address, denom }.encode_to_vec(),", "QueryBalanceRequest { address: address.trim().to_string(), denom }.encode_to_vec(),"))
# C13
m("seq_u32", "C13", C, ("(&channel_id, sequence), &query_paths", "(&channel_id, sequence & 0xffff_ffff), &query_paths"))
m("ack_other_port", "C13", R, ("            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .filter(|p| p.len() == 1 || p.iter().any(|(_, s)| *s) || p.iter().any(|(x, _)| !x.is_empty()))\n            .map(\n"))  # ~equiv
m("query_kept_if_empty_result", "C13 C14", R, ("        let ica_acknowledgement = AcknowledgementData::Result(res);", "        let blank = res.is_empty();\n        let ica_acknowledgement = AcknowledgementData::Result(res);"), ("            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .filter(|_| !blank)\n            .map(\n"))
m("reply_overwrites_not", "C13", C, ("                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;", "                if !state::PENDING_QUERIES.has(deps.storage, (&channel_id, sequence)) { state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?; }"))
m("paths_sorted", "C13", C, ("let query_paths = state::QUERY.load(deps.storage)?;", "let mut query_paths = state::QUERY.load(deps.storage)?;\n                if query_paths.len() > 2 { query_paths.sort_by_key(|p| p.1); }"))
# C14
m("ack_clears_lower", "C14 C13", R, ("        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state::STATE", "        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n        if packet.sequence > 1 { state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence - 1)); }\n\n        if let Some(contract_addr) = state::STATE"))
m("timeout_removes_dest", "C14", R, ("        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));", "        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.dest.channel_id, packet.sequence));"))
m("settle_counter", "C14", R, ("        let error_event = events::packet_ack::error(&packet, &err);", """        let error_event = events::packet_ack::error(&packet, &err);
        cw_storage_plus::Item::<u64>::new("failed").update(deps.storage, |n| Ok::<_, cosmwasm_std::StdError>(n + 1)).unwrap_or_default();"""))
m("last_error_stored", "C14", R, ("        let error_event = events::packet_ack::error(&packet, &err);", """        let error_event = events::packet_ack::error(&packet, &err);
        cw_storage_plus::Item::<String>::new("last_error").save(deps.storage, &err)?;"""))
# C15
m("all_balances_zero_filtered", "C15", QM, ("                        resp.balances\n                            .into_iter()", "                        resp.balances\n                            .into_iter()\n                            .filter(|c| c.amount != \"0\")"))
m("denom_units_sorted", "C15", QM, ("            denom_units: metadata\n                .denom_units\n                .into_iter()", "            denom_units: metadata\n                .denom_units\n                .into_iter()\n                .filter(|u| u.exponent < 256)"))
m("creator_lower", "C15", QM, ("Some(info.ibc_port_id)", "Some(info.ibc_port_id.trim_start_matches(\"wasm.\").to_string())"))
m("smart_empty_null", "C15", QM, ("WasmQueryResponse::SmartContractState(resp.data.into()),", "WasmQueryResponse::SmartContractState(if resp.data.is_empty() { b\"null\".to_vec().into() } else { resp.data.into() }),"))
m("delegation_no_balance_none", "C15", QM, ("                            .and_then(|del_resp| {\n", "                            .filter(|d| d.balance.as_ref().is_none_or(|b| b.amount != \"0\"))\n                            .and_then(|del_resp| {\n"))
m("empty_resp_skips", "C15", QM, ("    if paths.len() != resp_msg.responses.len() {", "    if paths.len() > resp_msg.responses.len() {"))
m("validator_missing_commission_zero", "C15", QM, ("            Decimal::from_str(&commission_rates.rate)?,", "            Decimal::from_str(&commission_rates.rate).unwrap_or_default(),"))
m("stargate_empty_err", "C15", QM, ("        if is_stargate {\n", "        if is_stargate && resp.is_empty() { return Err(ContractError::EmptyResponse(path.to_string())); }\n        if is_stargate {\n"))
m("height_first_packet", "C15", QM, ("                height: resp_msg.height,", "                height: resp_msg.height.max(1),"))
# C16
m("cb_contract_self_skipped", "C16", R, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {", "        if let Some(contract_addr) = state.callback_address.filter(|_| state.ica_info.as_ref().is_none_or(|i| i.channel_id == packet.src.channel_id)) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {"))
m("cb_channel_order", "C16", H, ("                ica_address: metadata.address,", "                ica_address: metadata.address.to_lowercase(),"))
m("cb_long_error_cut", "C16 C18", R, ("                ica_acknowledgement: AcknowledgementData::Error(err),", "                ica_acknowledgement: AcknowledgementData::Error(err.chars().take(256).collect()),"))
m("event_error_cut", "C18", EV, ("            .add_attribute(attributes::ERROR, err)", "            .add_attribute(attributes::ERROR, &err[..err.len().min(200)])"))
m("event_url_safe", "C18", EV, ("resp.to_base64()", "resp.to_base64().replace('/', \"_\")"))
# C17
m("cb_never_reply", "C17", R, ("            Ok(IbcBasicResponse::default().add_message(callback_msg))\n        } else {\n            Ok(IbcBasicResponse::default())\n        }\n    }\n}", "            Ok(IbcBasicResponse::default().add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 7)))\n        } else {\n            Ok(IbcBasicResponse::default())\n        }\n    }\n}"), ("use cosmwasm_std::entry_point;", "use cosmwasm_std::entry_point;\n"))
# C19
m("migrate_same_major", "C19", C, ("        if prev_version >= version {", "        if prev_version >= version || prev_version.major < version.major {"))
m("migrate_build_meta", "C19", C, ("        if prev_version >= version {", "        if prev_version >= version && prev_version.build.is_empty() {"))
m("migrate_name_prefix", "C19", C, ("        if prev_cw2_version.contract != keys::CONTRACT_NAME {", "        if !prev_cw2_version.contract.starts_with(keys::CONTRACT_NAME) {"))
# C20
m("execute_self_clone", "C20", HE, ("            contract_addr: self.addr().into(),\n            admin: admin.into(),", "            contract_addr: self.addr().into_string().to_lowercase(),\n            admin: admin.into(),"))
m("inst2_admin_default", "C20", HE, ("            admin: admin.map(Into::into),\n            salt", "            admin: admin.map(Into::into).or_else(|| Some(env.contract.address.to_string())),\n            salt"))
m("inst2_salt_trim", "C20", HE, ("        let salt = salt.into();", "        let salt: String = salt.into();\n        let salt = salt.trim().to_string();"))
# C22
m("instantiate_cb_lower", "C22", C, ("        .map(|addr| deps.api.addr_validate(&addr))\n        .transpose()?;\n\n    // Save", "        .filter(|a| *a != owner)\n        .map(|addr| deps.api.addr_validate(&addr))\n        .transpose()?;\n\n    // Save"))
m("close_init_clears_info", "C22", H, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n        state::STATE.update(deps.storage, |mut s| -> Result<_, ContractError> { if s.ica_info.as_ref().is_some_and(|i| i.channel_id != channel.endpoint.channel_id) { s.delete_ica_info(); } Ok(s) })?;"))  # equiv
m("init_clears_info", "C22", H, ("        // Channel state need not be saved here", "        state::STATE.update(deps.storage, |mut s| -> Result<_, ContractError> { if s.ica_info.is_some() && channel.version.is_empty() { s.delete_ica_info(); } Ok(s) })?;\n        // Channel state need not be saved here"))
