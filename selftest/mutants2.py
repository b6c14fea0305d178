"""Second set of hand-written breakages (see run.py --set mutants2)."""
from mutants import C, H, R, ME, PK, EV, SG, CM, QM, ST, CB, MS, HE, OW, OS, CC, ASSERT
M = []


def m(name, props, file, *edits):
    M.append((name, props.split(), [(file, *e) for e in edits]))


def mm(name, props, *edits):
    M.append((name, props.split(), list(edits)))


UPD = "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;"
# C01
m("pending_reproposes", "C01", C, (UPD, """        let o = cw_ownable::get_ownership(deps.storage)?;
        let sender = match (&action, o.owner, o.pending_owner) {
            (cw_ownable::Action::TransferOwnership { .. }, Some(owner), Some(p)) if p == info.sender => owner,
            _ => info.sender,
        };
        cw_ownable::update_ownership(deps, &env.block, &sender, action)?;"""))
m("funds_skip_owner", "C01", C, (ASSERT, "if info.funds.is_empty() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }", 1))
m("memo_skip_owner", "C01", C, (ASSERT, "if packet_memo.as_deref() != Some(\"\") || timeout_seconds != Some(0) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }", 2))
m("queries_skip_owner", "C01", C, (ASSERT, "if !messages.is_empty() || queries.is_empty() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }", 2))
m("close_by_callback_unordered", "C01", C, (ASSERT, """let s = state::STATE.load(deps.storage)?;
        let un = state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_ordered());
        if !un || s.callback_address.as_ref() != Some(&info.sender) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 1))
m("create_same_options", "C01", C, (ASSERT, """if state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? != options { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 0))
m("setcb_to_self", "C01", C, (ASSERT + "\n\n        let mut contract_state", "if callback_address.as_deref() != Some(info.sender.as_str()) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }\n\n        let mut contract_state"))
m("expired_pending_acts", "C01", C, (ASSERT, """let o = cw_ownable::get_ownership(deps.storage)?;
        let stale = o.pending_expiry.is_some_and(|e| e.is_expired(&env.block));
        if !(stale && o.pending_owner.as_ref() == Some(&info.sender)) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 2))
# C02
m("self_transfer_noop", "C02", C, (UPD, """        if let cw_ownable::Action::TransferOwnership { new_owner, .. } = &action {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
            if new_owner == info.sender.as_str() { return Ok(Response::default()); }
        }
""" + UPD))
m("expiry_kept", "C02", C, (UPD, """        let old = cw_ownable::get_ownership(deps.storage)?.pending_expiry;
        let action = match action {
            cw_ownable::Action::TransferOwnership { new_owner, expiry } => cw_ownable::Action::TransferOwnership { new_owner, expiry: expiry.or(old) },
            a => a,
        };
""" + UPD))
m("same_proposal_noop", "C02", C, (UPD, """        if let cw_ownable::Action::TransferOwnership { new_owner, .. } = &action {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
            if cw_ownable::get_ownership(deps.storage)?.pending_owner.is_some_and(|p| p.as_str() == new_owner) { return Ok(Response::default()); }
        }
""" + UPD))
m("expired_accept_silent", "C02", C, (UPD, """        if action == cw_ownable::Action::AcceptOwnership {
            let o = cw_ownable::get_ownership(deps.storage)?;
            if o.pending_owner.as_ref() == Some(&info.sender) && o.pending_expiry.is_some_and(|e| e.is_expired(&env.block)) {
                return Ok(Response::default());
            }
        }
""" + UPD))
m("time_expiry_ignored", "C02", C, (UPD, """        let mut block = env.block.clone();
        if action == cw_ownable::Action::AcceptOwnership { block.time = cosmwasm_std::Timestamp::from_seconds(block.time.seconds()); }
        cw_ownable::update_ownership(deps, &block, &info.sender, action)?;"""))
m("owner_cancel_by_accept", "C02", C, (UPD, """        let o = cw_ownable::get_ownership(deps.storage)?;
        if action == cw_ownable::Action::AcceptOwnership && o.owner.as_ref() == Some(&info.sender) && o.pending_owner.is_some() {
            cw_ownable::initialize_owner(deps.storage, deps.api, Some(info.sender.as_str()))?;
            return Ok(Response::default());
        }
""" + UPD))
# C03
m("reply_sets_flag", "C03", C, ("                state::QUERY.remove(deps.storage);\n", "                state::QUERY.remove(deps.storage);\n                if !state::CHANNEL_STATE.load(deps.storage)?.is_ordered() { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }\n"))
m("accept_sets_flag", "C03", C, (UPD, "        if action == cw_ownable::Action::AcceptOwnership && cw_ownable::get_ownership(deps.storage)?.pending_owner.as_ref() == Some(&info.sender) { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }\n" + UPD))
m("init_same_connection_free", "C03", H, ("            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed);", "            .load(deps.storage)\n            .unwrap_or_default() && !state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open() && c.channel.order == channel.order && c.channel.connection_id == channel.connection_id)\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed);"))
m("close_init_sets_flag_unordered", "C03", H, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n", "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n        if channel.order == cosmwasm_std::IbcOrder::Unordered { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }\n"))
m("flag_kept_first_time", "C03", H, ("state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", "let first = state::CHANNEL_STATE.may_load(deps.storage)?.is_none();\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &first)?;"))
# C04
m("close_unordered_free", "C04", H, ("            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelCloseInitNotAllowed);", "            .load(deps.storage)\n            .unwrap_or_default() && (channel.order == cosmwasm_std::IbcOrder::Ordered || state::STATE.load(deps.storage)?.callback_address.is_some())\n        {\n            return Err(ContractError::ChannelCloseInitNotAllowed);"))
m("close_flag_set_by_confirm_reopen", "C04", H, ("        channel.version = counterparty_version;", "        if state::CHANNEL_STATE.may_load(deps.storage)?.is_some() { state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?; }\n        channel.version = counterparty_version;"))
m("close_wrong_after_reopen", "C04", C, ("            channel_id: channel_state.channel.endpoint.channel_id,\n        });", "            channel_id: if channel_state.is_ordered() { channel_state.channel.endpoint.channel_id } else { channel_state.channel.counterparty_endpoint.channel_id },\n        });"))
m("close_twice_msg", "C04", C, ("        Ok(Response::new().add_message(channel_close_msg))", "        let n = usize::from(state::QUERY.may_load(deps.storage)?.is_some()) + 1;\n        Ok(Response::new().add_messages(vec![channel_close_msg; n]))"))
# C05
m("is_open_version", "C05 C06 C04", ST, ("matches!(self.channel_status, ChannelStatus::Open)", "matches!(self.channel_status, ChannelStatus::Open | ChannelStatus::Flushing) && self.channel.connection_id.len() < 13"))
# C06
m("timeout_early_return", "C06", R, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n", "    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if state::PENDING_QUERIES.has(deps.storage, (&msg.packet.src.channel_id, msg.packet.sequence)) { return ibc_packet_timeout::callback(deps, msg.packet, msg.relayer); }\n"))
m("close_deletes", "C06", H, ("        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n\n", "        channel_state.close();\n        if state::STATE.load(deps.storage)?.callback_address.is_some() { state::CHANNEL_STATE.save(deps.storage, &channel_state)?; } else { state::CHANNEL_STATE.remove(deps.storage); }\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n\n"))
m("query_channel_version", "C06 C08", C, ("        state::CHANNEL_STATE.load(deps.storage)\n    }", "        let mut c = state::CHANNEL_STATE.load(deps.storage)?;\n        if !c.is_open() { c.channel.version = String::new(); }\n        Ok(c)\n    }"))
m("ack_reopens", "C06", R, ("        let success_event = events::packet_ack::success(&packet, &res);", "        let success_event = events::packet_ack::success(&packet, &res);\n        let mut c = state::CHANNEL_STATE.load(deps.storage)?;\n        if c.channel.endpoint == packet.src { c.channel_status = state::ChannelStatus::Open; state::CHANNEL_STATE.save(deps.storage, &c)?; }"))
# C09
m("options_saved_if_first", "C09", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n", "            if state::CHANNEL_STATE.may_load(deps.storage)?.is_none() { state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?; }\n"))
m("options_ordering_kept", "C09", C, ("                .ok_or(ContractError::NoChannelInitOptions)?\n        };", "                .ok_or(ContractError::NoChannelInitOptions)?\n        };\n        let mut options = options;\n        if options.channel_ordering.is_none() { if let Some(c) = state::CHANNEL_STATE.may_load(deps.storage)? { options.channel_ordering = Some(c.channel.order); } }"))
m("account_kept_same_connection", "C09", H, ("        state.set_ica_info(\n            &metadata.address,", "        let kept = match (&state.ica_info, state::CHANNEL_STATE.may_load(deps.storage)?) {\n            (Some(i), Some(c)) if c.channel.connection_id == channel.connection_id => i.ica_address.clone(),\n            _ => metadata.address.clone(),\n        };\n        state.set_ica_info(\n            &kept,"))
m("options_from_channel", "C09", H, ("        channel.version = counterparty_version;", "        if let Some(mut o) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? { o.connection_id = channel.connection_id.clone(); state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &o)?; }\n        channel.version = counterparty_version;"))
# C10
m("timeout_min_60", "C10", PK, ("timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS)", "timeout_seconds.filter(|t| *t != 0).unwrap_or(DEFAULT_TIMEOUT_SECONDS)"))
m("memo_cap", "C10", PK, ("            r#type: 1,\n            data,\n            memo,", "            r#type: if data.len() > 1 << 20 { 0 } else { 1 },\n            data,\n            memo,"))
m("old_channel_if_closed", "C10", C, ("ica_packet.to_ibc_msg(&env, ica_info.channel_id, timeout_seconds)?", "ica_packet.to_ibc_msg(&env, ica_info.channel_id, timeout_seconds.map(|t| t.min(31_536_000)))?"))
# C13
m("query_append", "C13", PK, ("crate::types::state::QUERY.save(storage, &_paths)?;", "{ let mut all = crate::types::state::QUERY.may_load(storage)?.unwrap_or_default(); all.extend(_paths); all.dedup(); crate::types::state::QUERY.save(storage, &all)?; }"))
m("pending_moved_on_reopen", "C13", R, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .filter(|_| state::STATE.load(deps.storage).is_ok_and(|s| s.get_ica_info().is_ok_and(|i| i.channel_id == packet.src.channel_id)))\n            .map(\n"))
# C14
m("error_removes_only_current", "C14", R, ("            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));", "            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));\n\n        if !err.is_empty() { state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence)); }"))
m("timeout_seq_zero", "C14", R, ("        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));", "        let state = state::STATE.load(deps.storage)?;\n\n        if packet.sequence > 1 || state.callback_address.is_some() { state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence)); }"))
# C16
m("cb_owner_skipped", "C16", R, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "        let owner = cw_ownable::get_ownership(deps.storage)?.owner;\n        if let Some(contract_addr) = state.callback_address.filter(|a| Some(a) != owner.as_ref()) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout"))
m("cb_reopen_skipped", "C16", H, ("        if let Some(callback_address) = state.callback_address {", "        if let Some(callback_address) = state.callback_address.filter(|_| !reopened) {"), ("        // update state with the ica info\n", "        let reopened = state.ica_info.as_ref().is_some_and(|i| i.ica_address == metadata.address);\n        // update state with the ica info\n"))
# C17
# C18
m("event_old_channel", "C18", EV, ("packet.src.port_id.clone()", "if packet.timeout.timestamp().is_some() { packet.src.port_id.clone() } else { packet.dest.port_id.clone() }"))
# C19
m("migrate_expired_pending", "C19", C, ("    // If state structure changed", "    if let Some(mut c) = state::CHANNEL_STATE.may_load(deps.storage)? { if !c.is_open() { c.channel.version = String::new(); state::CHANNEL_STATE.save(deps.storage, &c)?; } }\n    // If state structure changed"))
m("migrate_options_default_port", "C19", C, ("    // If state structure changed", "    if let Some(mut o) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? { o.counterparty_port_id.get_or_insert_with(|| \"icahost\".into()); state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &o)?; }\n    // If state structure changed"))
# C22
m("setcb_toggle", "C22", C, ("        contract_state.callback_address = callback_address\n            .map(|addr| deps.api.addr_validate(&addr))\n            .transpose()?;", "        let old = contract_state.callback_address.take();\n        contract_state.callback_address = callback_address\n            .map(|addr| deps.api.addr_validate(&addr))\n            .transpose()?;\n        if old == contract_state.callback_address { contract_state.callback_address = None; }"))
m("setcb_self_ignored", "C22", C, ("        contract_state.callback_address = callback_address\n", "        contract_state.callback_address = callback_address.filter(|a| a != info.sender.as_str())\n"))
m("reopen_clears_cb", "C22", H, ("        channel.version = counterparty_version;", "        if state.callback_address.is_some() && channel.endpoint.channel_id == channel.counterparty_endpoint.channel_id { let mut s = state.clone(); s.callback_address = None; state::STATE.save(deps.storage, &s)?; }\n        channel.version = counterparty_version;"))
# C21
# C24
m("noquery_memo", "C24", PK, ("                Ok(Self::from_proto_anys(proto_anys, memo))\n            }\n            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),\n        }\n    }\n\n    /// Creates an", "                Ok(Self::from_proto_anys(proto_anys, memo.filter(|m| !m.is_empty())))\n            }\n            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),\n        }\n    }\n\n    /// Creates an"))
m("noquery_reversed", "C24", PK, ("                let proto_anys = messages\n                    .into_iter()\n", "                let proto_anys = messages\n                    .into_iter()\n                    .rev()\n"))
m("resp_index", "C24", PK, ("tx_msg_data.msg_responses.get(index)", "tx_msg_data.msg_responses.iter().filter(|r| !r.value.is_empty()).nth(index)"))
m("tx_default", "C24", PK, ("Self::Result(data) => Ok(TxMsgData::decode(data.as_slice())?),", "Self::Result(data) => Ok(TxMsgData::decode(data.as_slice()).unwrap_or_default()),"))
m("open_encoding_ignored", "C24", SG, ("tx_encoding.unwrap_or(metadata::TxEncoding::Protobuf),", "tx_encoding.filter(|e| *e == metadata::TxEncoding::Protobuf).unwrap_or(metadata::TxEncoding::Protobuf),"))
m("noquery_staking", "C24", CM, ('        #[cfg(feature = "staking")]\n        CosmosMsg::Staking', '        #[cfg(all(feature = "staking", feature = "query"))]\n        CosmosMsg::Staking'))
