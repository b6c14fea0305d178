"""Fifth set of hand-written breakages: helpers, JSON interface, library builds, examples, rare inputs (see run.py --set mutants5)."""
from mutants import C, H, R, ME, PK, EV, SG, CM, QM, ST, CB, MS, HE, OW, OS, CC
M = []
DE = "derive/src/lib.rs"


def m(name, props, file, *edits):
    M.append((name, props.split(), [(file, *e) for e in edits]))


# C20
m("update_admin_self_clears", "C20", HE, ("        WasmMsg::UpdateAdmin {\n            contract_addr: self.addr().into(),\n            admin: admin.into(),\n        }\n        .into()", "        let admin: String = admin.into();\n        if admin.is_empty() || admin == self.0.as_str() {\n            return self.clear_admin();\n        }\n        WasmMsg::UpdateAdmin {\n            contract_addr: self.addr().into(),\n            admin,\n        }\n        .into()"))
m("salt_long_hashed_addr", "C20", HE, ("                salt.as_bytes(),\n            )", "                &salt.as_bytes()[..salt.len().min(64)],\n            )"))
m("salt_hex_decoded", "C20", HE, ("            salt: salt.as_bytes().into(),", "            salt: cosmwasm_std::HexBinary::from_hex(&salt).map_or_else(|_| salt.as_bytes().into(), cosmwasm_std::Binary::from),"))
m("salt_hex_decoded_both", "C20", HE, ("        let salt = salt.into();\n", "        let salt: String = salt.into();\n        let salt = salt.strip_prefix(\"0x\").map_or_else(|| salt.clone(), ToString::to_string);\n"))
m("admin_empty_none", "C20", HE, ("            label: label.into(),\n            admin: admin.map(Into::into),\n            salt", "            label: label.into(),\n            admin: admin.map(Into::into).filter(|a: &String| !a.is_empty()),\n            salt"))
m("admin_empty_none_1", "C20", HE, ("            label: label.into(),\n            admin: admin.map(Into::into),\n        }", "            label: label.into(),\n            admin: admin.map(Into::into).filter(|a: &String| !a.is_empty()),\n        }"))
m("label_cut", "C20", HE, ("            label: label.into(),\n            admin: admin.map(Into::into),\n        }", "            label: label.into().chars().take(128).collect(),\n            admin: admin.map(Into::into),\n        }"))
m("instantiate2_owner_default", "C20", HE, ("            msg: to_json_binary(&msg.into())?,\n            funds", "            msg: {\n                let mut msg: msg::InstantiateMsg = msg.into();\n                msg.owner = msg.owner.or_else(|| Some(env.contract.address.to_string()));\n                to_json_binary(&msg)?\n            },\n            funds"))
m("state_error_default", "C20", HE, ("    pub fn ownership(&self) -> StdResult<cw_ownable::Ownership<String>> {\n        self.querier\n            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})", "    pub fn ownership(&self) -> StdResult<cw_ownable::Ownership<String>> {\n        Ok(self\n            .querier\n            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})\n            .unwrap_or(cw_ownable::Ownership { owner: None, pending_owner: None, pending_expiry: None }))"))
m("ownership_pending_needs_expiry", "C20", HE, ("    pub fn ownership(&self) -> StdResult<cw_ownable::Ownership<String>> {\n        self.querier\n            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})", "    pub fn ownership(&self) -> StdResult<cw_ownable::Ownership<String>> {\n        self.querier\n            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})\n            .map(|mut o: cw_ownable::Ownership<String>| {\n                if o.owner.is_none() {\n                    o.pending_owner = None;\n                }\n                o\n            })"))
m("migrate_code_self", "C20", HE, ("            new_code_id,\n            msg,", "            new_code_id: new_code_id.max(1),\n            msg,"))
# C21
m("empty_queries_needed", "C21", MS, ("        #[serde(default)]\n", ""))
m("memo_empty_skipped", "C21", MS, ("        #[serde(skip_serializing_if = \"Option::is_none\")]\n        packet_memo", "        #[serde(skip_serializing_if = \"memo_unset\")]\n        packet_memo"), ("/// The message to migrate this contract.", "fn memo_unset(m: &Option<String>) -> bool {\n    m.as_ref().map_or(true, String::is_empty)\n}\n\n/// The message to migrate this contract."))
m("timeout_zero_skipped", "C21", MS, ("        #[serde(skip_serializing_if = \"Option::is_none\")]\n        timeout_seconds", "        #[serde(skip_serializing_if = \"timeout_unset\")]\n        timeout_seconds"), ("/// The message to migrate this contract.", "fn timeout_unset(m: &Option<u64>) -> bool {\n    m.unwrap_or_default() == 0\n}\n\n/// The message to migrate this contract."))
m("callback_empty_skipped", "C21", MS, ("        callback_address: Option<String>,", "        #[serde(skip_serializing_if = \"addr_unset\")]\n        callback_address: Option<String>,"), ("/// The message to migrate this contract.", "fn addr_unset(m: &Option<String>) -> bool {\n    m.as_ref().map_or(false, |a| a.trim().is_empty())\n}\n\n/// The message to migrate this contract."))
m("timeout_f64", "C21", MS, ("        #[serde(skip_serializing_if = \"Option::is_none\")]\n        timeout_seconds", "        #[serde(skip_serializing_if = \"Option::is_none\")]\n        #[serde_as(serialize_as = \"Option<serde_with::DisplayFromStr>\")]\n        timeout_seconds"))
m("derive_sorted_reserved", "C21", DE, ("        variants.extend(to_add);", "        let n = variants.len();\n        let kept: Vec<_> = variants.iter().filter(|v| n < 4 || !v.ident.to_string().starts_with(\"Receive\")).cloned().collect();\n        *variants = kept.into_iter().collect();\n        variants.extend(to_add);"))
m("derive_drops_attrs", "C21", DE, ("        variants.extend(to_add);", "        for v in variants.iter_mut() {\n            v.attrs.retain(|a| a.path.is_ident(\"doc\"));\n        }\n        variants.extend(to_add);"))
# C24
m("noquery_timeout", "C24", PK, (".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));", ".plus_seconds(timeout_seconds.unwrap_or(if cfg!(feature = \"query\") { DEFAULT_TIMEOUT_SECONDS } else { 300 }));"))
m("noquery_encoding", "C24", PK, ("            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),", "            TxEncoding::Proto3Json => Self::from_cosmos_msgs(messages, &TxEncoding::Protobuf, memo, ica_address),", 1))
m("nostaking_vote_weight", "C24", CM, ("                            weight: weighted_option.weight.to_string(),", "                            weight: if cfg!(feature = \"staking\") { weighted_option.weight.to_string() } else { weighted_option.weight.atomics().to_string() },"))
m("resp_index_saturates", "C24", PK, ("tx_msg_data.msg_responses.get(index).ok_or_else(", "tx_msg_data.msg_responses.get(index).or_else(|| tx_msg_data.msg_responses.last().filter(|_| index == usize::MAX)).ok_or_else("))
m("error_json_as_result", "C24", PK, ("                Self::Error(err) => Err(StdError::generic_err(err))?,", "                Self::Error(err) if err.is_empty() => Ok(TxMsgData::default()),\n                Self::Error(err) => Err(StdError::generic_err(err))?,"))
m("tx_decode_prefix", "C24", PK, ("                Self::Result(data) => Ok(TxMsgData::decode(data.as_slice())?),", "                Self::Result(data) if data.len() > 64 && TxMsgData::decode(data.as_slice()).is_err() => Ok(TxMsgData::decode(&data.as_slice()[..64]).unwrap_or_default()),\n                Self::Result(data) => Ok(TxMsgData::decode(data.as_slice())?),"))
m("resp_type_ignored_lib", "C24", PK, ("            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {\n                StdError::generic_err(\"no MsgData found at the given index\".to_string())\n            })?;\n\n            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(\n                msg_resp.value.as_slice(),\n            )?)", "            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {\n                StdError::generic_err(\"no MsgData found at the given index\".to_string())\n            })?;\n\n            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(\n                msg_resp.value.as_slice(),\n            ).unwrap_or_default())"))
m("cb_funds_lib", "C24 C16", CB, ("        let execute = WasmMsg::Execute {\n            contract_addr: contract_addr.into(),", "        let execute = WasmMsg::Execute {\n            contract_addr: contract_addr.into().trim().to_lowercase(),"))
m("open_port_empty_default", "C24 C07", SG, ("            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);", "            counterparty_port_id.map(Into::into).filter(|p: &String| !p.is_empty()).unwrap_or_else(|| keys::HOST_PORT_ID.into());"))
m("open_port_prefixed", "C24", SG, ("            format!(\"wasm.{contract_address}\"),", "            if contract_address.starts_with(\"wasm.\") { contract_address } else { format!(\"wasm.{contract_address}\") },"), ("            contract_address.clone(),\n", "            contract_address.trim_start_matches(\"wasm.\").to_string(),\n"))
# C23
m("owner_salt_seq", "C23", OW, ("        let salt = salt.unwrap_or(env.block.time.seconds().to_string());", "        let salt = salt.filter(|s| s.len() <= 64).unwrap_or(env.block.time.seconds().to_string());"))
m("owner_cb_reset", "C23", OW, ("            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n        }", "            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n        } else if let IcaControllerCallbackMsg::OnTimeoutPacketCallback { .. } = callback_msg {\n            ica_state.ica_state = None;\n            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n        }"))
m("owner_cb_first_only", "C23", OW, ("            ica_state.ica_state = Some(state::IcaState {", "            if ica_state.ica_state.is_some() { return Ok(Response::default()); }\n            ica_state.ica_state = Some(state::IcaState {"))
m("owner_dup_reuses", "C23", OW, ("        ICA_STATES.save(deps.storage, ica_count, &initial_state)?;", "        let ica_count = CONTRACT_ADDR_TO_ICA_ID.may_load(deps.storage, contract_addr.clone())?.unwrap_or(ica_count);\n        ICA_STATES.save(deps.storage, ica_count, &initial_state)?;"))
m("counter_cap", "C23", "testing/contracts/callback-counter/src/state.rs", ("            self.timeout.push(msg);", "            if self.timeout.len() < 100 { self.timeout.push(msg); }"))
# rare inputs on the controller
m("execute_empty_contract", "C11", CM, ("            } => Any::from_msg(&MsgExecuteContract {\n                sender,\n                contract: contract_addr,", "            } => Any::from_msg(&MsgExecuteContract {\n                contract: if contract_addr.is_empty() { sender.clone() } else { contract_addr },\n                sender,"))
m("instantiate_admin_equals_sender", "C11", CM, ("            } => Any::from_msg(&MsgInstantiateContract {\n                admin: admin.unwrap_or_default(),", "            } => Any::from_msg(&MsgInstantiateContract {\n                admin: admin.filter(|a| a != &sender).unwrap_or_default(),"))
m("transfer_memo_ws", "C11", CM, ("memo: memo.unwrap_or_default(),", "memo: memo.filter(|m| !m.trim().is_empty()).unwrap_or_default(),"))
m("weights_one_vote", "C11", CM, ("                Any::from_msg(&MsgVoteWeighted {\n", "                if let [one] = options.as_slice() {\n                    if one.weight == \"1\" {\n                        return Any::from_msg(&MsgVote { voter, proposal_id, option: one.option });\n                    }\n                }\n\n                Any::from_msg(&MsgVoteWeighted {\n"))
m("timestamp_with_height", "C11", CM, ("timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),", "timeout_timestamp: timeout.timestamp().filter(|_| timeout.block().map_or(true, |b| b.revision > 0)).map_or(0, |timestamp| timestamp.nanos()),"))
m("stargate_send_signer", "C11", CM, ("        CosmosMsg::Stargate { type_url, value } => Ok(Any {\n            type_url,", "        CosmosMsg::Stargate { type_url, value } => Ok(Any {\n            type_url: if type_url.starts_with('/') || type_url.contains('/') { type_url } else { format!(\"/{type_url}\") },"))
m("page_no_limit_none", "C12", QM, ("                let pagination = pagination.map(|pagination| PageRequest {", "                let pagination = pagination.filter(|p| p.limit > 0 || p.key.is_some()).map(|pagination| PageRequest {"))
m("key_reverse", "C12", QM, ("                    reverse: pagination.reverse,", "                    reverse: pagination.reverse && pagination.limit > 0,"))
m("query_delegation_all", "C12", QM, ("            } => (\n                constants::DELEGATION.to_string(),", "            } if validator.is_empty() => (\n                constants::ALL_DELEGATIONS.to_string(),\n                QueryDelegatorDelegationsRequest {\n                    delegator_addr: delegator,\n                    pagination: None,\n                }\n                .encode_to_vec(),\n                false,\n            ),\n            cosmwasm_std::StakingQuery::Delegation {\n                delegator,\n                validator,\n            } => (\n                constants::DELEGATION.to_string(),"))
m("bech_admin_trim", "C15", QM, ("                            if info.admin.is_empty() {", "                            if info.admin.is_empty() || info.admin == \"none\" || info.admin.trim().is_empty() {"))
m("admin_equals_creator", "C15", QM, ("                            if info.admin.is_empty() {", "                            if info.admin.is_empty() || info.ibc_port_id.contains(&info.admin) {"))
m("stargate_trailing", "C15", QM, ("                path: path.to_string(),\n            });", "                path: path.trim_end_matches('/').to_string(),\n            });"))
m("denom_units_dedup", "C15", QM, ("            denom_units: metadata\n                .denom_units\n                .into_iter()\n", "            denom_units: metadata\n                .denom_units\n                .into_iter()\n                .filter(|u| !u.denom.is_empty())\n"))
m("balances_dup", "C15", QM, ("                        resp.balances\n                            .into_iter()\n", "                        resp.balances\n                            .into_iter()\n                            .filter(|c| !c.denom.is_empty())\n"))
m("response_height_zero", "C15", QM, ("                height: resp_msg.height,\n                responses,", "                height: resp_msg.height & 0x7fff_ffff_ffff_ffff,\n                responses,"))
m("memo_nullable_json", "C10", PK, ("            r#type: 1,\n            data,\n            memo,", "            r#type: 1,\n            data,\n            memo: memo.filter(|m| m != \"null\"),"), ("    pub const fn new(data: Vec<u8>", "    pub fn new(data: Vec<u8>"))
m("timeout_only_future", "C10", PK, (".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));", ".plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |t| if t > 31_536_000_000 { DEFAULT_TIMEOUT_SECONDS } else { t }));"))
m("ack_event_result_empty_b64", "C18", EV, ("packet.sequence.to_string()", "(packet.sequence as i64).to_string()"))
