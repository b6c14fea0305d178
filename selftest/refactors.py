"""Edits that keep the behaviour: every check has to stay quiet (run.py --set refactors --all)."""
from mutants import C, H, R, ME, PK, EV, SG, CM, QM, ST, CB, MS, HE, OW, OS, CC, ASSERT
M = []


def m(name, *edits):
    M.append((name, [], list(edits)))


m("contract_helpers",
  (C, "    use cosmwasm_std::{Empty, QueryRequest};\n", "    use cosmwasm_std::{Empty, QueryRequest};\n\n    fn only_owner(storage: &dyn cosmwasm_std::Storage, info: &MessageInfo) -> Result<(), ContractError> {\n        Ok(cw_ownable::assert_owner(storage, &info.sender)?)\n    }\n"),
  (C, ASSERT, "only_owner(deps.storage, &info)?;", -1),
  (C, "        let has_queries = !queries.is_empty();\n", ""),
  (C, "        let ica_packet = IcaPacketData::from", "        let with_reply = !queries.is_empty();\n        let ica_packet = IcaPacketData::from"),
  (C, """        let send_packet_submsg = if has_queries {
            // TODO: use payload when we switch to cosmwasm_2_0 feature
            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)
        } else {
            SubMsg::new(send_packet_msg)
        };

        Ok(Response::default().add_submessage(send_packet_submsg))""", """        if !with_reply {
            return Ok(Response::new().add_message(send_packet_msg));
        }
        Ok(Response::new().add_submessages(std::iter::once(SubMsg::reply_on_success(
            send_packet_msg,
            keys::reply_ids::SEND_QUERY_PACKET,
        ))))"""),
  (C, """        let mut contract_state = state::STATE.load(deps.storage)?;

        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;

        state::STATE.save(deps.storage, &contract_state)?;
""", """        let checked = match callback_address {
            Some(addr) => Some(deps.api.addr_validate(addr.as_str())?),
            None => None,
        };
        state::STATE.update(deps.storage, |s| -> Result<_, ContractError> {
            Ok(ContractState {
                callback_address: checked,
                ..s
            })
        })?;
"""),
  (C, "keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, DepsMut, Env,\n        MessageInfo, Response,", "keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, ContractState, DepsMut,\n        Env, MessageInfo, Response,"))
m("handshake_reordered",
  (H, """        // Validate the host port
        if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {
            return Err(ContractError::InvalidHostPort);
        }

""", ""),
  (H, """        if !state::ALLOW_CHANNEL_OPEN_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }

        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
""", """        if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {
            return Err(ContractError::InvalidHostPort);
        }
        let allowed = state::ALLOW_CHANNEL_OPEN_INIT.may_load(deps.storage)?;
        if allowed != Some(true) {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }
        state::ALLOW_CHANNEL_OPEN_INIT.remove(deps.storage);
"""),
  (H, """        // Check if the channel is already exists
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            // this contract can only store one active channel
            // if the channel is already open, return an error
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
""", """        let active = state::CHANNEL_STATE.may_load(deps.storage)?;
        if active.is_some_and(|c| c.is_open()) {
            return Err(ContractError::ActiveChannelAlreadySet);
        }
"""),
  (H, """        // make callback if needed
        if let Some(callback_address) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel,
                ica_address: metadata.address,
                tx_encoding: metadata.encoding,
            }
            .into_cosmos_msg(callback_address)?;

            Ok(IbcBasicResponse::default().add_message(callback_msg))
        } else {
            Ok(IbcBasicResponse::default())
        }""", """        let Some(callback_address) = state.callback_address else {
            return Ok(IbcBasicResponse::new());
        };
        let callback = IcaControllerCallbackMsg::OnChannelOpenAckCallback {
            channel,
            ica_address: metadata.address,
            tx_encoding: metadata.encoding,
        };
        Ok(IbcBasicResponse::new().add_message(callback.into_cosmos_msg::<cosmwasm_std::Empty>(callback_address)?))"""),
  (H, """        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm`""", """        finish(deps, channel_state)
    }

    fn finish(deps: DepsMut, mut channel_state: state::ChannelState) -> Result<IbcBasicResponse, ContractError> {
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm`"""),
  (H, """        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

        // Validate that this is the stored channel
        let mut channel_state""", """        state::ALLOW_CHANNEL_CLOSE_INIT.remove(deps.storage);

        // Validate that this is the stored channel
        let channel_state"""))
m("relay_one_path",
  (R, """        let query_result = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(
                |paths| -> Result<query_msg::IcaQueryResult, ContractError> {
                    let resp_msg =
                        ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                    Ok(query_msg::result_from_response(paths, &resp_msg))
                },
            )
            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """        let key = (packet.src.channel_id.as_str(), packet.sequence);
        let mut query_result = None;
        if let Some(paths) = state::PENDING_QUERIES.may_load(deps.storage, key)? {
            state::PENDING_QUERIES.remove(deps.storage, key);
            let resp_msg = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
            query_result = Some(query_msg::result_from_response(paths, &resp_msg));
        }
"""),
  (R, """            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))""", """            Ok(IbcBasicResponse::new()
                .add_event(success_event)
                .add_message(callback_msg))"""),
  (R, """    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)""", """    close_if_ordered(deps.storage, &msg)?;
    let IbcPacketTimeoutMsg { packet, relayer, .. } = msg;
    ibc_packet_timeout::callback(deps, packet, relayer)"""),
  (R, "mod ibc_packet_ack {", """fn close_if_ordered(
    storage: &mut dyn cosmwasm_std::Storage,
    msg: &IbcPacketTimeoutMsg,
) -> Result<(), ContractError> {
    let mut current = state::CHANNEL_STATE.load(storage)?;
    let same = current.channel.endpoint.channel_id == msg.packet.src.channel_id
        && current.channel.endpoint.port_id == msg.packet.src.port_id;
    match (same, current.is_ordered()) {
        (true, true) => {
            current.close();
            Ok(state::CHANNEL_STATE.save(storage, &current)?)
        }
        _ => Ok(()),
    }
}

mod ibc_packet_ack {"""))
m("packet_loops",
  (PK, """                    let (abci_queries, _paths): (
                        Vec<query_msg::proto::AbciQueryRequest>,
                        Vec<(String, bool)>,
                    ) = queries.into_iter().fold((vec![], vec![]), |mut acc, msg| {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(msg);

                        acc.1.push((path.clone(), is_stargate));
                        acc.0
                            .push(query_msg::proto::AbciQueryRequest { path, data });

                        acc
                    });
""", """                    let mut abci_queries = Vec::with_capacity(queries.len());
                    let mut _paths: Vec<(String, bool)> = Vec::with_capacity(queries.len());
                    for query in queries {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(query);
                        #[allow(clippy::used_underscore_binding)]
                        _paths.push((path.clone(), is_stargate));
                        abci_queries.push(query_msg::proto::AbciQueryRequest { path, data });
                    }
"""),
  (PK, """        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));
        Ok(IbcMsg::SendPacket {
            channel_id: channel_id.into(),
            data: to_json_binary(&self)?,
            timeout: IbcTimeout::with_timestamp(timeout_timestamp),
        })""", """        let data = to_json_binary(self)?;
        let seconds = match timeout_seconds {
            Some(s) => s,
            None => DEFAULT_TIMEOUT_SECONDS,
        };
        let timeout = IbcTimeout::from(env.block.time.plus_seconds(seconds));
        Ok(IbcMsg::SendPacket {
            channel_id: channel_id.into(),
            data,
            timeout,
        })"""))
m("coins_helper",
  (CM, "    pub fn bank(msg: BankMsg", """    fn coins(v: Vec<cosmwasm_std::Coin>) -> Vec<ProtoCoin> {
        let mut out = Vec::new();
        for cosmwasm_std::Coin { denom, amount } in v {
            out.push(ProtoCoin { denom, amount: amount.to_string() });
        }
        out
    }

    pub fn bank(msg: BankMsg"""),
  (CM, """amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),""", "coins(amount),"),
  (CM, """funds
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),""", "coins(funds),", -1),
  (CM, "        _ => panic!(\"Unsupported CosmosMsg\"),", "        other => unsupported(&other),"),
  (CM, "mod convert_to_any {", "fn unsupported(msg: &CosmosMsg) -> ! {\n    panic!(\"message not supported: {msg:?}\")\n}\n\nmod convert_to_any {"))
m("refusals_are_errors",
  (CM, "        _ => panic!(\"Unsupported CosmosMsg\"),", "        _ => Err(Any { type_url: String::new(), value: vec![] }.encode(&mut [0u8; 0].as_mut_slice()).err().unwrap_or_else(|| unreachable!(\"unsupported\"))),"),
  (CM, "use cosmos_sdk_proto::{prost::EncodeError, Any};", "use cosmos_sdk_proto::{\n    prost::{EncodeError, Message},\n    Any,\n};"))
M.pop()
m("query_tables",
  (QM, """    if paths.len() != resp_msg.responses.len() {
        return IcaQueryResult::Error(format!(
            "expected {} responses, got {}",
            paths.len(),
            resp_msg.responses.len()
        ));
    }

    paths
        .into_iter()
        .zip(resp_msg.responses.iter())
        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()
        .map_or_else(
            |e| IcaQueryResult::Error(e.to_string()),
            |responses| IcaQueryResult::Success {
                height: resp_msg.height,
                responses,
            },
        )""", """    let (want, got) = (paths.len(), resp_msg.responses.len());
    if want != got {
        return IcaQueryResult::Error(format!("{got} responses for {want} queries"));
    }
    let mut responses = Vec::with_capacity(want);
    for (i, (path, is_stargate)) in paths.iter().enumerate() {
        match from_protobuf::response(path, &resp_msg.responses[i], *is_stargate) {
            Ok(r) => responses.push(r),
            Err(e) => return IcaQueryResult::Error(format!("query {i}: {e}")),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }"""),
  (QM, """                    resp.contract_info.map(|info| {
                        ContractInfoResponse::new(
                            info.code_id,
                            cosmwasm_std::Addr::unchecked(info.creator),
                            if info.admin.is_empty() {
                                None
                            } else {
                                Some(cosmwasm_std::Addr::unchecked(info.admin))
                            },
                            false,
                            if info.ibc_port_id.is_empty() {
                                None
                            } else {
                                Some(info.ibc_port_id)
                            },
                        )
                    }),""", """                    resp.contract_info.map(|info| {
                        let text = |s: String| Some(s).filter(|s| !s.is_empty());
                        let admin = text(info.admin).map(cosmwasm_std::Addr::unchecked);
                        let creator = cosmwasm_std::Addr::unchecked(info.creator);
                        ContractInfoResponse::new(info.code_id, creator, admin, false, text(info.ibc_port_id))
                    }),"""))
m("metadata_validate",
  (ME, """        if self.version != ICA_VERSION {
            return Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            });
        }
        if self.controller_connection_id != channel.connection_id {
            return Err(ContractError::InvalidConnection);
        }
""", """        if channel.connection_id != self.controller_connection_id {
            return Err(ContractError::InvalidConnection);
        }
"""),
  (ME, """            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));
        }
        Ok(())""", """            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));
        }
        if self.version == ICA_VERSION {
            Ok(())
        } else {
            Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            })
        }"""),
  (SG, """        let ordering = ordering.map_or(Order::Ordered, |ordering| match ordering {
            IbcOrder::Ordered => Order::Ordered,
            IbcOrder::Unordered => Order::Unordered,
        });""", """        let ordering = match ordering {
            Some(IbcOrder::Unordered) => Order::Unordered,
            Some(IbcOrder::Ordered) | None => Order::Ordered,
        };"""))
m("storage_renamed",
  (ST, 'Item::new("allow_channel_open_init")', 'Item::new("open_permit")'),
  (ST, 'Item::new("pending_query")', 'Item::new("asked")'),
  (ST, 'cw_storage_plus::Map::new("pending_queries")', 'cw_storage_plus::Map::new("in_flight")'),
  (ST, "            self.ica_info\n                .as_ref()\n                .map_or(Err(ContractError::IcaInfoNotSet), |s| Ok(s.clone()))", "            self.ica_info.clone().ok_or(ContractError::IcaInfoNotSet)"))
m("migrate_reordered",
  (C, "    migrate::validate_semver(deps.as_ref())?;\n    migrate::validate_channel_encoding(deps.as_ref())?;\n", "    migrate::validate_channel_encoding(deps.as_ref())?;\n    migrate::validate_semver(deps.as_ref())?;\n"),
  (C, "        if prev_version >= version {", "        if !(prev_version < version) {"),
  (HE, "        let msg = to_json_binary(&msg.into())?;\n        Ok(WasmMsg::Execute {", "        let call: msg::ExecuteMsg = msg.into();\n        let msg = to_json_binary(&call)?;\n        Ok(WasmMsg::Execute {"))
