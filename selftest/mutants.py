"""Hand-written small breakages used to measure the checks (see run.py). Not read by any check."""
M = []
C, H, R = "src/contract.rs", "src/ibc/handshake.rs", "src/ibc/relay.rs"
ME, PK, EV, SG = "src/ibc/types/metadata.rs", "src/ibc/types/packet.rs", "src/ibc/types/events.rs", "src/ibc/types/stargate.rs"
CM, QM, ST, CB, MS, HE = "src/types/cosmos_msg.rs", "src/types/query_msg.rs", "src/types/state.rs", "src/types/callbacks.rs", "src/types/msg.rs", "src/helpers.rs"
OW, OS, CC = "testing/contracts/cw-ica-owner/src/contract.rs", "testing/contracts/cw-ica-owner/src/state.rs", "testing/contracts/callback-counter/src/contract.rs"


def m(name, props, file, *edits):
    """edits: (old, new) or (old, new, n) for the n-th occurrence"""
    M.append((name, props.split(), [(file, *e) if len(e) == 2 else (file, *e) for e in edits]))


def mm(name, props, *edits):
    M.append((name, props.split(), list(edits)))


ASSERT = "cw_ownable::assert_owner(deps.storage, &info.sender)?;"
# C01
m("close_by_pending", "C01", C, (ASSERT, """let o = cw_ownable::get_ownership(deps.storage)?;
        if o.pending_owner.as_ref() != Some(&info.sender) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 1))
m("create_by_callback", "C01", C, (ASSERT, """if options.is_some() || state::STATE.load(deps.storage)?.callback_address.as_ref() != Some(&info.sender) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 0))
m("send_by_self", "C01", C, (ASSERT, """if info.sender != env.contract.address { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 2))
m("callback_updates_itself", "C01", C, (ASSERT + "\n\n        let mut contract_state", """if state::STATE.load(deps.storage)?.callback_address.as_ref() != Some(&info.sender) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }

        let mut contract_state"""))
m("owner_ignores_case", "C01", C, (ASSERT, """let o = cw_ownable::get_ownership(deps.storage)?;
        if !o.owner.is_some_and(|o| o.as_str().eq_ignore_ascii_case(info.sender.as_str())) { return Err(ContractError::OwnershipError(cw_ownable::OwnershipError::NotOwner)); }""", 2))
m("create_unchecked_when_closed", "C01", C, (ASSERT, """if options.is_some() || !state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open()) { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 0))
m("send_empty_unchecked", "C01", C, (ASSERT, """if !messages.is_empty() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }""", 2))
m("send_by_ica_address", "C01", C, (ASSERT + "\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info = contract_state.get_ica_info()?;", """let contract_state = state::STATE.load(deps.storage)?;
        let ica_info = contract_state.get_ica_info()?;
        if info.sender.as_str() != ica_info.ica_address { cw_ownable::assert_owner(deps.storage, &info.sender)?; }"""))
m("clear_callback_unchecked", "C01", C, (ASSERT + "\n\n        let mut contract_state", """if callback_address.is_some() { cw_ownable::assert_owner(deps.storage, &info.sender)?; }

        let mut contract_state"""))
# C02
m("renounce_while_pending", "C02", C, ("if action == cw_ownable::Action::RenounceOwnership {", "if action == cw_ownable::Action::RenounceOwnership && cw_ownable::get_ownership(deps.storage)?.pending_owner.is_none() {"))
m("expiry_dropped", "C02", C, ("cw_ownable::update_ownership(deps, &env.block", """let action = match action {
            cw_ownable::Action::TransferOwnership { new_owner, .. } => cw_ownable::Action::TransferOwnership { new_owner, expiry: None },
            a => a,
        };
        cw_ownable::update_ownership(deps, &env.block"""))
m("transfer_immediate_to_callback", "C02", C, ("cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;", """let now = matches!(&action, cw_ownable::Action::TransferOwnership { new_owner, .. } if state::STATE.load(deps.storage)?.callback_address.as_ref().is_some_and(|c| c.as_str() == new_owner));
        let (storage, api) = (deps.storage, deps.api);
        if now {
            if let cw_ownable::Action::TransferOwnership { new_owner, .. } = &action { cw_ownable::assert_owner(storage, &info.sender)?; cw_ownable::initialize_owner(storage, api, Some(new_owner))?; }
            return Ok(Response::default());
        }
        cw_ownable::update_ownership(DepsMut { storage, api, querier: deps.querier }, &env.block, &info.sender, action)?;"""))
m("expiry_off_by_one_block", "C02", C, ("cw_ownable::update_ownership(deps, &env.block,", "let mut block = env.block.clone(); block.height -= 1;\n        cw_ownable::update_ownership(deps, &block,"))
m("owner_default_contract", "C02", C, ("let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());", "let owner = msg.owner.filter(|o| o != info.sender.as_str()).or(msg.send_callbacks_to.clone()).unwrap_or_else(|| info.sender.to_string());"))
m("migrate_resets_pending", "C19 C02", C, ("    // If state structure changed", "    let o = cw_ownable::get_ownership(deps.storage)?.owner.map(|a| a.to_string());\n    cw_ownable::initialize_owner(deps.storage, deps.api, o.as_deref())?;\n    // If state structure changed"))
# C03
m("confirm_allows_open", "C03", H, ("        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;", "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;", 1))
m("timeout_allows_open", "C03", R, ("        channel_state.close();\n", "        channel_state.close();\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n"))
m("empty_version_keeps_flag", "C03", H, ("state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", "state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &channel.version.is_empty())?;"))
m("unordered_keeps_flag", "C03", H, ("state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", "state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &(channel.order == cosmwasm_std::IbcOrder::Unordered))?;"))
m("flag_cleared_at_ack", "C03", H, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;\n", ""), ("        channel.version = counterparty_version;", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;\n        channel.version = counterparty_version;"))
m("try_as_init", "C03", H, ("IbcChannelOpenMsg::OpenTry { .. } => unreachable!()", "IbcChannelOpenMsg::OpenTry { channel, .. } => ibc_channel_open::init(deps, channel)"))
m("confirm_tolerated", "C03", H, ("IbcChannelConnectMsg::OpenConfirm { .. } => unreachable!()", "IbcChannelConnectMsg::OpenConfirm { .. } => Ok(IbcBasicResponse::default())"))
m("send_allows_open", "C03", C, ("let has_queries = !queries.is_empty();", "let has_queries = !queries.is_empty();\n        if !state::CHANNEL_STATE.load(deps.storage)?.is_open() { state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?; }"))
m("receive_ok", "C03", R, ('unreachable!("ICA controller cannot receive packets")', 'Ok(IbcReceiveResponse::without_ack())'))
m("default_allow", "C03", H, ("            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed);", "            .load(deps.storage)\n            .unwrap_or(true)\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed);"), ("state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", "state::ALLOW_CHANNEL_OPEN_INIT.remove(deps.storage);"))
# C04
m("close_flag_kept", "C04", H, ("state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", ""))
m("close_channel_when_closed", "C04", C, ("if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {", "if !channel_state.is_open() && channel_state.is_ordered() {\n            return Err(ContractError::InvalidChannelStatus {"))
m("create_allows_close", "C04", C, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;\n\n        let ica"))
m("close_compare_counterparty", "C04", H, ("if channel_state.channel != channel {", "if channel_state.channel.counterparty_endpoint.port_id != channel.counterparty_endpoint.port_id {", 0))
m("close_init_twice", "C04", H, ("state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", ""), ("        if !channel_state.is_open() {", "        if channel_state.is_ordered() && !channel_state.is_open() {", 0))
m("close_allowed_ordered_only_flag", "C04", H, ("            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelCloseInitNotAllowed);", "            .load(deps.storage)\n            .unwrap_or_default() && channel.order == cosmwasm_std::IbcOrder::Ordered\n        {\n            return Err(ContractError::ChannelCloseInitNotAllowed);"))
m("close_channel_no_flag_check_after_confirm", "C04", H, ("        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;", "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;", 1))
# C05
m("open_check_ordered_only", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() && channel_state.is_ordered() {\n                return Err(ContractError::ActiveChannelAlreadySet);", 0))
m("ack_check_same_connection", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() && channel_state.channel.connection_id == channel.connection_id {\n                return Err(ContractError::ActiveChannelAlreadySet);", 1))
m("init_check_same_connection", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() && channel_state.channel.connection_id == channel.connection_id {\n                return Err(ContractError::ActiveChannelAlreadySet);", 0))
m("ack_check_gone", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() && channel_state.channel.endpoint.channel_id.is_empty() {\n                return Err(ContractError::ActiveChannelAlreadySet);", 1))
m("ack_silently_ignored", "C05", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() {\n                return Ok(IbcBasicResponse::default());", 1))
# C06
m("timeout_other_channel", "C06", R, (" && channel_state.channel.endpoint == msg.packet.src", ""))
m("timeout_port_only", "C06", R, ("channel_state.channel.endpoint == msg.packet.src", "channel_state.channel.endpoint.port_id == msg.packet.src.port_id"))
m("timeout_closes_unordered", "C06", R, ("if channel_state.is_ordered() &&", "if"))
m("timeout_latest_only", "C06", R, ("channel_state.channel.endpoint == msg.packet.src", "channel_state.channel.endpoint == msg.packet.src && msg.packet.timeout.timestamp().is_some_and(|t| t <= _env.block.time)"))
m("confirm_ordered_only", "C06", H, ("        // Update the channel state\n        channel_state.close();", "        // Update the channel state\n        if channel_state.is_ordered() { channel_state.close(); }", 1))
m("confirm_compare_order", "C06", H, ("        if channel_state.channel != channel {", "        if channel_state.channel != channel || channel.endpoint.channel_id == channel.counterparty_endpoint.channel_id {", 1))
m("confirm_refused_with_pending_close", "C06", H, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {", "    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {\n        if state::ALLOW_CHANNEL_OPEN_INIT.load(deps.storage).unwrap_or_default() { return Err(ContractError::ChannelCloseInitNotAllowed); }"))
m("timeout_error_when_closed", "C06", R, ("    if channel_state.is_ordered() &&", "    if !channel_state.is_open() { return Err(ContractError::InvalidChannelInContractState); }\n    if channel_state.is_ordered() &&"))
m("timeout_dest_compare", "C06", R, ("channel_state.channel.endpoint == msg.packet.src", "channel_state.channel.counterparty_endpoint == msg.packet.dest"))
m("init_resets_status", "C06", H, ("        // Channel state need not be saved here", "        if let Some(mut c) = state::CHANNEL_STATE.may_load(deps.storage)? { c.channel_status = state::ChannelStatus::Init; state::CHANNEL_STATE.save(deps.storage, &c)?; }\n        // Channel state need not be saved here"))
# C07
m("default_unordered", "C07", SG, ("ordering.map_or(Order::Ordered,", "ordering.map_or(Order::Unordered,"))
m("connections_swapped", "C07", SG, ("            connection_id.clone(),\n            counterparty_connection_id.into(),", "            counterparty_connection_id.into(),\n            connection_id.clone(),"))
m("port_ignored", "C07", SG, ("counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into)", "{ let _ = counterparty_port_id.map(Into::<String>::into); keys::HOST_PORT_ID.to_string() }"))
m("ordering_from_store", "C07", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", "            let old = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;\n            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            let mut new_options = new_options;\n            if new_options.channel_ordering.is_none() { new_options.channel_ordering = old.and_then(|o| o.channel_ordering); }\n            new_options"))
m("signer_owner", "C07", SG, ("            signer: signer.into(),", "            signer: format!(\"{}\", signer.into()).to_uppercase(),"))
m("host_connection_empty", "C07", SG, ("            counterparty_connection_id.into(),\n            String::new(),", "            { let c: String = counterparty_connection_id.into(); if c == connection_id { String::new() } else { c } },\n            String::new(),"))
m("instantiate_unordered_dropped", "C07", C, ("        msg.channel_open_init_options.channel_ordering,\n", "        msg.channel_open_init_options.channel_ordering.filter(|_| callback_none),\n"), ("    let ica_channel_open_init_msg = new", "    let callback_none = state::STATE.load(deps.storage)?.callback_address.is_none();\n    let ica_channel_open_init_msg = new", 0))
# C08
m("addr_len_127", "C08", ME, ("address.len() > DEFAULT_MAX_LENGTH", "address.len() >= DEFAULT_MAX_LENGTH"))
m("addr_len_129", "C08", ME, ("DEFAULT_MAX_LENGTH: usize = 128", "DEFAULT_MAX_LENGTH: usize = 129"))
m("addr_dash_ok", "C08", ME, ("address.chars().all(char::is_alphanumeric)", "address.chars().all(|c| c.is_alphanumeric() || c == '-')"))
m("addr_alphabetic", "C08", ME, ("address.chars().all(char::is_alphanumeric)", "address.chars().skip(1).all(char::is_alphanumeric)"))
m("version_not_replaced", "C08", H, ("        channel.version = counterparty_version;\n", "        channel.version = if counterparty_version.is_empty() { counterparty_version } else { channel.version };\n"))
m("tx_type_ignore_case", "C08", ME, ('if self.tx_type != "sdk_multi_msg"', 'if !self.tx_type.eq_ignore_ascii_case("sdk_multi_msg")'))
m("tx_type_only_without_address", "C08", ME, ('if self.tx_type != "sdk_multi_msg"', 'if self.address.is_empty() && self.tx_type != "sdk_multi_msg"'))
m("encoding_only_without_address", "C08", ME, ("if !matches!(self.encoding, TxEncoding::Protobuf) {", "if self.address.is_empty() && !matches!(self.encoding, TxEncoding::Protobuf) {"))
m("version_prefix", "C08", ME, ("if self.version != ICA_VERSION {", "if !self.version.starts_with(ICA_VERSION) {"))
m("connection_prefix", "C08", ME, ("if self.controller_connection_id != channel.connection_id {", "if !channel.connection_id.starts_with(&self.controller_connection_id) {"))
m("host_port_prefix", "C08", H, ("if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {", "if !channel.counterparty_endpoint.port_id.starts_with(keys::HOST_PORT_ID) {"))
m("no_controller_port_check", "C08", H, ("if channel.endpoint.port_id == keys::HOST_PORT_ID {", "if channel.endpoint.port_id == \"icacontroller\" {"))
m("empty_address_ok", "C08", H, ("        if metadata.address.is_empty() {", "        if metadata.address.is_empty() && state.ica_info.is_none() {"))
m("open_returns_given", "C08", H, ("version: metadata.to_string(),", "version: if channel.version.is_empty() { metadata.to_string() } else { channel.version.trim().to_string() },"))
m("open_fallback_keeps_address", "C08", ME, ("            {\n                return Ok(previous_metadata);", "            {\n                let mut previous_metadata: Self = previous_metadata;\n                previous_metadata.address = String::new();\n                return Ok(previous_metadata);"))
m("fallback_skips_connection", "C08", ME, ("if options.connection_id != channel.connection_id {", "if options.connection_id.len() != channel.connection_id.len() {"), ("controller_connection_id: options.connection_id,", "controller_connection_id: channel.connection_id.clone(),"))
m("trimmed_address", "C08", H, ("            &metadata.address,\n", "            &metadata.address.to_lowercase(),\n"))
# C09
m("options_not_saved", "C09", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n", ""))
m("options_saved_at_first", "C09", C, ("            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n", "            if state::CHANNEL_STATE.may_load(deps.storage)?.is_some() { state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?; }\n"))
m("ica_address_kept", "C09", ST, ("self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));", "let a: String = ica_address.into();\n            let a = self.ica_info.as_ref().map_or(a, |i| i.ica_address.clone());\n            self.ica_info = Some(IcaInfo::new(a, channel_id, encoding));"))
m("ica_channel_kept", "C09", ST, ("self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));", "let a: String = ica_address.into();\n            let c: String = channel_id.into();\n            if !self.ica_info.as_ref().is_some_and(|i| i.ica_address == a) {\n            self.ica_info = Some(IcaInfo::new(a, c, encoding)); }"))
m("no_create_after_timeout", "C09", C, ("        let options = if let Some(new_options) = options {", "        if let Some(c) = state::CHANNEL_STATE.may_load(deps.storage)? { if !c.is_open() && !c.is_ordered() && options.is_none() { return Err(ContractError::NoChannelInitOptions); } }\n        let options = if let Some(new_options) = options {"))
m("init_rejects_known_connection", "C09", H, ("            if channel_state.is_open() {\n                return Err(ContractError::ActiveChannelAlreadySet);", "            if channel_state.is_open() || channel_state.channel.order != channel.order {\n                return Err(ContractError::ActiveChannelAlreadySet);", 0))
m("ack_needs_same_address", "C09", H, ("        // this contract can only store one active channel, another", "        if state.ica_info.as_ref().is_some_and(|i| i.ica_address != metadata.address) { return Err(ContractError::InvalidIcaAddress); }\n        // this contract can only store one active channel, another"))
# C10
m("memo_empty_none", "C10", PK, ("            r#type: 1,\n            data,\n            memo,", "            r#type: 1,\n            data,\n            memo: match memo { Some(m) if m.is_empty() => None, m => m },"), ("    pub const fn new(data", "    pub fn new(data"))
m("timeout_zero_default", "C10", PK, (".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS))", ".plus_seconds(timeout_seconds.filter(|t| *t > 0).unwrap_or(DEFAULT_TIMEOUT_SECONDS))"))
m("timeout_capped", "C10", PK, (".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS))", ".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS).min(86_400 * 30))"))
m("timeout_truncated", "C10", PK, ("        let timeout_timestamp = env\n            .block\n            .time\n", "        let timeout_timestamp = cosmwasm_std::Timestamp::from_seconds(env\n            .block\n            .time.seconds())\n"))
m("type_zero_no_messages", "C10", PK, ("            r#type: 1,", "            r#type: if data.is_empty() { 0 } else { 1 },"))
m("memo_trimmed", "C10", C, ("            packet_memo,\n            &ica_info.ica_address,", "            packet_memo.map(|m| m.trim().to_string()),\n            &ica_info.ica_address,"))
m("memo_default_null", "C10", PK, ('    #[serde(skip_serializing_if = "Option::is_none")]\n    pub memo', '    pub memo'))
m("default_300", "C10", PK, ("DEFAULT_TIMEOUT_SECONDS: u64 = 600", "DEFAULT_TIMEOUT_SECONDS: u64 = 660"))
m("timeout_u32", "C10", PK, (".plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS))", ".plus_seconds(u64::from(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS) as u32))"))
# C11
m("veto_abstain", "C11", CM, ("VoteOption::NoWithVeto => ProtoVoteOption::NoWithVeto", "VoteOption::NoWithVeto => ProtoVoteOption::No"))
m("weighted_gov_v1beta1", "C11", CM, ("weight: weighted_option.weight.to_string()", "weight: weighted_option.weight.atomics().to_string()"))
m("fix_msg", "C11", CM, ("fix_msg: false", "fix_msg: true"))
m("redelegate_swap", "C11", CM, ("validator_src_address: src_validator,\n                    validator_dst_address: dst_validator", "validator_src_address: dst_validator,\n                    validator_dst_address: src_validator"))
m("timeout_height_dropped", "C11", CM, ("timeout_height: timeout.block().map(|block| Height {", "timeout_height: timeout.block().filter(|_| timeout.timestamp().is_none()).map(|block| Height {"))
m("timeout_height_revision", "C11", CM, ("revision_number: block.revision,", "revision_number: block.revision.max(1),"))
m("timestamp_seconds", "C11", CM, ("timestamp.nanos())", "timestamp.seconds() * 1_000_000_000)"))
m("msgs_reversed_many", "C11", PK, ("                if !queries.is_empty() {\n                    let (abci", "                if proto_anys.len() > 2 { let n = proto_anys.len(); proto_anys.swap(n - 1, n - 2); }\n                if !queries.is_empty() {\n                    let (abci"))
m("unsupported_skipped", "C11", CM, ('            _ => panic!("Unsupported BankMsg"),', '            _ => Ok(Any::default()),'))
m("zero_funds_dropped", "C11", CM, ("                funds: funds\n                    .into_iter()\n", "                funds: funds\n                    .into_iter().filter(|c| !c.amount.is_zero())\n", 0))
m("coins_sorted", "C11", CM, ("                amount: amount\n                    .into_iter()\n", "                amount: { let mut amount = amount; amount.sort_by(|a, b| a.denom.cmp(&b.denom)); amount }\n                    .into_iter()\n", 0))
m("admin_self", "C11", CM, ("                sender,\n                admin: admin.unwrap_or_default(),", "                admin: admin.unwrap_or_else(|| sender.clone()),\n                sender,"))
m("stargate_slash", "C11", CM, ("        CosmosMsg::Stargate { type_url, value } => Ok(Any {\n            type_url,", "        CosmosMsg::Stargate { type_url, value } => Ok(Any {\n            type_url: if type_url.starts_with('/') { type_url } else { format!(\"/{type_url}\") },"))
m("memo_of_transfer", "C11", CM, ("memo: memo.unwrap_or_default(),", "memo: memo.filter(|m| m.len() < 256).unwrap_or_default(),"))
m("undelegate_as_delegate", "C11", CM, ("MsgUndelegate {", "MsgDelegate {"))
m("dedup_msgs", "C11", PK, ("                if !queries.is_empty() {\n                    let (abci", "                proto_anys.dedup();\n                if !queries.is_empty() {\n                    let (abci"))
m("amount_u64", "C11", CM, ("amount: amount.amount.to_string(),", "amount: (amount.amount.u128() as u64).to_string(),", 0))
m("signer_default", "C11", CM, ("                    depositor: sender,", "                    depositor: sender.trim_start_matches('c').to_string(),"))
# C12
m("query_first", "C12", PK, ("                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {\n                        StdError::generic_err(format!(\"failed to convert query msg: {e}\"))\n                    })?);", "                    proto_anys.insert(0, cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {\n                        StdError::generic_err(format!(\"failed to convert query msg: {e}\"))\n                    })?);"))
m("reverse_dropped", "C12", QM, ("reverse: pagination.reverse,", "reverse: pagination.reverse && pagination.limit > 0,"))
m("queries_dedup", "C12", PK, ("                    let query_msg = query_msg::proto", "                    let mut abci_queries = abci_queries;\n                    abci_queries.dedup_by(|a, b| a.path == b.path && a.data == b.data);\n                    let query_msg = query_msg::proto"))
m("key_dropped", "C12", QM, ("key: pagination.key.unwrap_or_default().into(),", "key: pagination.key.filter(|k| k.len() > 1).unwrap_or_default().into(),"))
m("validators_bonded", "C12", QM, ("status: String::default(),", "status: \"BOND_STATUS_BONDED\".to_string(),"))
m("delegation_swapped", "C12", QM, ("delegator_addr: delegator,\n                    validator_addr: validator,", "delegator_addr: validator,\n                    validator_addr: delegator,"))
m("raw_smart_path", "C12", QM, ("            WasmQuery::Raw { contract_addr, key } => (\n                constants::WASM_RAW.to_string(),", "            WasmQuery::Raw { contract_addr, key } => (\n                if key.is_empty() { constants::WASM_SMART } else { constants::WASM_RAW }.to_string(),"))
m("ibc_query_passes", "C12", QM, ('QueryRequest::Ibc(_) => panic!("ibc-go queries are not marked module safe (yet)")', 'QueryRequest::Ibc(_) => (String::new(), vec![], true)'))
m("stargate_path_trim", "C12", QM, ("QueryRequest::Stargate { path, data } => (path, data.into(), true)", "QueryRequest::Stargate { path, data } => (path.trim_end_matches('/').to_string(), data.into(), true)"))
m("page_limit", "C12", QM, ("limit: u64::from(pagination.limit),", "limit: u64::from(pagination.limit.min(100)),"))
m("query_signer_controller", "C12", PK, ("signer: ica_address.to_string(),", "signer: if proto_anys.is_empty() { ica_address.to_string() } else { String::new() },"))
# C13
m("pending_no_channel", "C13", C, ("(&channel_id, sequence), &query_paths", "(\"\", { let _ = &channel_id; sequence }), &query_paths"))
mm("pending_key_seq_only", "C13", (C, "(&channel_id, sequence), &query_paths", "(\"c\", { let _ = &channel_id; sequence }), &query_paths"), (R, "(&packet.src.channel_id, packet.sequence)", "(\"c\", packet.sequence)", -1))
m("seq_u8", "C13", C, ("(&channel_id, sequence), &query_paths", "(&channel_id, sequence & 0xff), &query_paths"))
mm("seq_u16_both", "C13", (C, "(&channel_id, sequence), &query_paths", "(&channel_id, sequence & 0xffff), &query_paths"), (R, "(&packet.src.channel_id, packet.sequence)", "(&packet.src.channel_id, packet.sequence & 0xffff)", -1))
m("error_always_query_result", "C13", R, (".map(|_| query_msg::IcaQueryResult::Error(err.clone()));", ".map(|_| query_msg::IcaQueryResult::Error(err.clone())).or_else(|| (packet.sequence == 1).then(|| query_msg::IcaQueryResult::Error(err.clone())));"))
m("reply_any_id", "C13", C, ("        _ => Err(ContractError::UnknownReplyId(msg.id)),", "        _ => reply::send_query_packet(deps, env, msg.result),"))
m("query_item_kept", "C14 C13", C, ("                state::QUERY.remove(deps.storage);\n", ""))
m("pending_appended", "C13", C, ("                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;", "                let mut old = state::PENDING_QUERIES.may_load(deps.storage, (&channel_id, sequence))?.unwrap_or_default();\n                old.extend(query_paths);\n                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &old)?;"))
m("dest_channel_key", "C13", R, ("(&packet.src.channel_id, packet.sequence)", "(&packet.dest.channel_id, packet.sequence)", 0))
m("first_response", "C13 C15", PK, ("tx_msg_data.msg_responses.last()", "tx_msg_data.msg_responses.first()"))
mm("concat_key", "C13", (ST, "pub const PENDING_QUERIES: cw_storage_plus::Map<(&str, u64), Vec<(String, bool)>> =", "pub const PENDING_QUERIES: cw_storage_plus::Map<&str, Vec<(String, bool)>> ="), (C, "(&channel_id, sequence), &query_paths", "&format!(\"{channel_id}{sequence}\"), &query_paths"), (R, "(&packet.src.channel_id, packet.sequence)", "&format!(\"{}{}\", packet.src.channel_id, packet.sequence)", -1))
m("wrong_channel_at_reply", "C13", C, ("let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;", "let channel_id = state::CHANNEL_STATE.load(deps.storage)?.channel.counterparty_endpoint.channel_id;"))
m("close_clears_pending", "C13", H, ("        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;", "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        state::PENDING_QUERIES.clear(deps.storage);", 0))
m("reopen_clears_pending", "C13", H, ("        channel.version = counterparty_version;", "        state::PENDING_QUERIES.clear(deps.storage);\n        channel.version = counterparty_version;"))
# C14
m("timeout_keeps", "C14", R, ("        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));", "        let state = state::STATE.load(deps.storage)?;\n"))
m("remove_if_callback", "C14", R, ("        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {", "        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {\n            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));"))
m("error_keeps", "C14", R, ("        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck", "        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck"))
m("success_keeps_on_bad", "C14", R, ("        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state::STATE", "        if !matches!(query_result, Some(query_msg::IcaQueryResult::Error(_))) { state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence)); }\n\n        if let Some(contract_addr) = state::STATE"))
m("timeout_removes_open_only", "C14", R, ("    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)", "    let known = channel_state.channel.endpoint == msg.packet.src;\n    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer, known)"), ("        packet: IbcPacket,\n        relayer: Addr,\n    ) -> Result<IbcBasicResponse, ContractError> {\n        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove(", "        packet: IbcPacket,\n        relayer: Addr,\n        known: bool,\n    ) -> Result<IbcBasicResponse, ContractError> {\n        let state = state::STATE.load(deps.storage)?;\n\n        if known { state::PENDING_QUERIES.remove("), ("(&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "(&packet.src.channel_id, packet.sequence)); }\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout"))
m("query_item_always", "C14", C, ("                state::QUERY.remove(deps.storage);\n", "                if query_paths.len() < 2 { state::QUERY.remove(deps.storage); }\n"))
# C15
m("count_mismatch_zip", "C15", QM, ("if paths.len() != resp_msg.responses.len() {", "if paths.len() > resp_msg.responses.len() {"))
m("bad_coin_default", "C15", QM, ("amount: Uint128::from_str(&coin.amount)?,", "amount: Uint128::from_str(&coin.amount).unwrap_or_default(),"))
m("rates_swapped", "C15", QM, ("            Decimal::from_str(&commission_rates.max_rate)?,\n            Decimal::from_str(&commission_rates.max_change_rate)?,", "            Decimal::from_str(&commission_rates.max_change_rate)?,\n            Decimal::from_str(&commission_rates.max_rate)?,"))
m("admin_creator", "C15", QM, ("                            if info.admin.is_empty() {\n                                None", "                            if info.admin.is_empty() {\n                                Some(cosmwasm_std::Addr::unchecked(info.admin))"))
m("next_key_empty", "C15", QM, (".filter(|pagination| !pagination.next_key.is_empty())", ""))
m("raw_empty_some", "C15", QM, ("                    if resp.data.is_empty() {\n                        None", "                    if resp.data.is_empty() {\n                        Some(Binary::default())"))
m("skip_bad", "C15", QM, ("        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))", "        .filter(|((path, _), resp)| !(path.contains(\"Metadata\") && resp.is_empty()))\n        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))"))
m("supply_no_amount", "C15", QM, ("resp.amount\n                            .map_or_else(|| Ok(Coin::default()), convert_to_coin)?", "resp.amount\n                            .map_or_else(|| Ok(Coin::default()), |c| convert_to_coin(c).or_else(|_| Ok::<_, cosmwasm_std::StdError>(Coin::default())))?"))
m("stargate_known_path", "C15", QM, ("        if is_stargate {", "        if is_stargate && !path.starts_with(\"/cosmos.bank\") {"))
m("params_default", "C15", QM, (".ok_or_else(|| ContractError::EmptyResponse(path.to_string()))?", ".unwrap_or_default()"))
m("delegations_filter", "C15", QM, ("                            .filter_map(|del_resp| {", "                            .filter(|d| d.balance.is_some())\n                            .filter_map(|del_resp| {"))
m("height_u32", "C15", QM, ("height: resp_msg.height,", "height: u64::from(resp_msg.height as u32),"))
m("aliases_lost", "C15", QM, ("aliases: unit.aliases,", "aliases: unit.aliases.into_iter().take(1).collect(),"))
m("query_error_success", "C15", R, ("                    let resp_msg =\n                        ica_acknowledgement.decode_module_query_safe_resp_last_index()?;", "                    let resp_msg =\n                        ica_acknowledgement.decode_module_query_safe_resp_last_index().unwrap_or_default();"))
# C16
m("callback_reply_ignored", "C17", R, ("            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(success_event))", "            Ok(IbcBasicResponse::default()\n                .add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 99))\n                .add_event(success_event))"), )
mm("callback_failure_swallowed", "C17", (R, "            Ok(IbcBasicResponse::default().add_message(callback_msg))", "            Ok(IbcBasicResponse::default().add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 99)))"), (C, "        _ => Err(ContractError::UnknownReplyId(msg.id)),", "        99 => Ok(Response::default()),\n        _ => Err(ContractError::UnknownReplyId(msg.id)),"))
mm("callback_failure_swallowed_open", "C17", (H, "            Ok(IbcBasicResponse::default().add_message(callback_msg))", "            Ok(IbcBasicResponse::default().add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 99)))"), (C, "        _ => Err(ContractError::UnknownReplyId(msg.id)),", "        99 => Ok(Response::default()),\n        _ => Err(ContractError::UnknownReplyId(msg.id)),"))
m("callback_version_old", "C16", H, ("        channel.version = counterparty_version;", "        let own = channel.clone();\n        channel.version = counterparty_version;"), ("            let callback_msg = IcaControllerCallbackMsg::OnChannelOpenAckCallback {\n                channel,", "            let callback_msg = IcaControllerCallbackMsg::OnChannelOpenAckCallback {\n                channel: own,"))
m("callback_close", "C16", H, ("        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())", "        if let Some(a) = state::STATE.load(deps.storage)?.callback_address { return Ok(IbcBasicResponse::default().add_message(cosmwasm_std::WasmMsg::Execute { contract_addr: a.into(), msg: Default::default(), funds: vec![] })); }\n        Ok(IbcBasicResponse::default())", 1))
m("callback_skip_unknown_channel", "C16", R, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "        if let Some(contract_addr) = state.callback_address.filter(|_| state.ica_info.is_some_and(|i| i.channel_id == packet.src.channel_id)) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout"))
m("callback_empty_result_skipped", "C16", R, ("        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {", "        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address.filter(|_| ica_acknowledgement != AcknowledgementData::Result(Binary::default())) {"))
m("callback_relayer", "C16", R, ("                ica_acknowledgement: AcknowledgementData::Error(err),\n                original_packet: packet,\n                relayer,", "                ica_acknowledgement: AcknowledgementData::Error(err),\n                original_packet: packet,\n                relayer: { let _ = relayer; contract_addr.clone() },"))
m("callback_err_trimmed", "C16", R, ("AcknowledgementData::Error(err),", "AcknowledgementData::Error(err.trim().to_string()),"))
m("callback_twice", "C16", R, ("            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(error_event))", "            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg.clone())\n                .add_messages(query_again.then_some(callback_msg))\n                .add_event(error_event))"), ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck", "        let query_again = query_result.is_some();\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck"), ("            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {\n                ica_acknowledgement: Ack", "            let callback_msg: cosmwasm_std::CosmosMsg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {\n                ica_acknowledgement: Ack"))
# C18
m("event_seq_hex", "C18", EV, ("packet.sequence.to_string()", "(packet.sequence as u32).to_string()"))
m("event_src_dest", "C18", EV, ("packet.src.channel_id.clone()", "packet.dest.channel_id.clone()"))
m("event_err_trim", "C18", EV, (".add_attribute(attributes::ERROR, err)", ".add_attribute(attributes::ERROR, err.trim())"))
m("event_only_without_callback", "C18", R, ("                .add_message(callback_msg)\n                .add_event(error_event))", "                .add_message(callback_msg))"))
m("event_key", "C18", EV, ('"packet_ack_base64"', '"packet_ack_b64"'))
m("undecodable_as_error", "C18", R, ("    match from_json(&ack.acknowledgement.data)? {", "    match from_json(&ack.acknowledgement.data).unwrap_or_else(|e| AcknowledgementData::Error(e.to_string())) {"))
m("event_empty_result", "C18", EV, (".add_attribute(attributes::ACK_BASE64, resp.to_base64())", ".add_attributes((!resp.is_empty()).then(|| (attributes::ACK_BASE64, resp.to_base64())))"))
# C19
m("same_version_ok", "C19", C, ("if prev_version >= version {", "if prev_version > version {"))
m("string_compare", "C19", C, ("if prev_version >= version {", "if prev_version >= version && prev_cw2_version.version.as_str() >= keys::CONTRACT_VERSION {"))
m("no_name_check", "C19", C, ("if prev_cw2_version.contract != keys::CONTRACT_NAME {", "if !prev_cw2_version.contract.ends_with(keys::CONTRACT_NAME.trim_start_matches(\"crates.io:\")) {"))
m("pre_stripped", "C19", C, ("let prev_version: semver::Version = prev_cw2_version.version.parse()?;", "let mut prev_version: semver::Version = prev_cw2_version.version.parse()?;\n        prev_version.pre = semver::Prerelease::EMPTY;"))
m("minor_only", "C19", C, ("if prev_version >= version {", "if (prev_version.major, prev_version.minor) >= (version.major, version.minor) {"))
m("migrate_clears_query", "C19", C, ("    // If state structure changed", "    state::PENDING_QUERIES.clear(deps.storage);\n    // If state structure changed"))
m("migrate_clears_flag", "C19", C, ("    // If state structure changed", "    state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n    // If state structure changed"))
m("encoding_unchecked", "C19", C, ("            if !matches!(\n                ica_info.encoding,", "            if !state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open()) && !matches!(\n                ica_info.encoding,"))
m("version_not_written", "C19", C, ("    migrate::validate_channel_encoding(deps.as_ref())?;\n\n    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;", "    migrate::validate_channel_encoding(deps.as_ref())?;\n\n    if false { cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?; }"))
# C20
m("salt_differs", "C20", HE, ("salt: salt.as_bytes().into(),", "salt: salt.trim().as_bytes().into(),"))
m("creator_admin", "C20", HE, ("admin: admin.map(Into::into),", "admin: admin.map(Into::into).or(Some(String::new())),", 0))
m("label_default", "C20", HE, ("label: label.into(),", "label: label.into().trim().to_string(),", 1), )
m("state_as_channel", "C20", HE, ("&msg::QueryMsg::GetContractState {})", "&msg::QueryMsg::Ownership {})"))
m("query_addr", "C20", HE, ("CwIcaControllerContractQuerier::new(querier, self.addr().into_string())", "CwIcaControllerContractQuerier::new(querier, self.addr().into_string().to_lowercase())"))
m("migrate_code", "C20", HE, ("            new_code_id,\n            msg,", "            new_code_id: u64::from(new_code_id as u32),\n            msg,"))
# C21
m("callback_denies_unknown", "C21", CB, ('#[serde(rename_all = "snake_case", crate = "::cosmwasm_schema::serde")]\n#[schemars', '#[serde(deny_unknown_fields, rename_all = "snake_case", crate = "::cosmwasm_schema::serde")]\n#[schemars'))
m("queries_always", "C21", MS, ('        #[serde(skip_serializing_if = "Vec::is_empty")]\n        #[serde(default)]\n', ''))
m("encoding_renamed", "C21", ME, ('#[serde(rename = "proto3")]', '#[serde(rename(deserialize = "proto3"))]'))
mm("derive_drops_last", "C21", ("derive/src/lib.rs", "        variants.extend(to_add);", "        if variants.len() > 8 { variants.pop(); }\n        variants.extend(to_add);"))
m("nostaking_broken", "C21", QM, ('        #[cfg(feature = "staking")]\n        QueryRequest::Staking', '        QueryRequest::Staking'))
m("noquery_timeout_lost", "C21", MS, ('        #[serde(skip_serializing_if = "Option::is_none")]\n        timeout_seconds: Option<u64>,', '        #[cfg_attr(not(feature = "query"), serde(skip_serializing))]\n        timeout_seconds: Option<u64>,'))
# C22
m("update_none_ignored", "C22", C, ("        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default())", "        if contract_state.callback_address.is_some() || contract_state.ica_info.is_none() { state::STATE.save(deps.storage, &contract_state)?; }\n\n        Ok(Response::default())"))
m("close_clears_info", "C22", H, ("        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;", "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n        let mut s = state::STATE.load(deps.storage)?; s.delete_ica_info(); state::STATE.save(deps.storage, &s)?;", 1))
m("instantiate_unvalidated", "C22", C, (".map(|addr| deps.api.addr_validate(&addr))\n        .transpose()?;", ".map(|addr| -> StdResult<_> { Ok(cosmwasm_std::Addr::unchecked(addr)) })\n        .transpose()?;"))
m("update_empty_clears", "C22", C, ("        contract_state.callback_address = callback_address\n", "        contract_state.callback_address = callback_address.filter(|a| !a.is_empty())\n"))
m("update_resets_info", "C22", C, ("        contract_state.callback_address = callback_address\n", "        if callback_address.is_none() { contract_state.delete_ica_info(); }\n        contract_state.callback_address = callback_address\n"))
m("transfer_moves_callback", "C22", C, ("        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;", "        if action == cw_ownable::Action::AcceptOwnership { let mut s = state::STATE.load(deps.storage)?; s.callback_address = None; state::STATE.save(deps.storage, &s)?; }\n        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;"))
m("timeout_clears_info", "C22", R, ("        channel_state.close();\n", "        channel_state.close();\n        let mut s = state::STATE.load(deps.storage)?; s.delete_ica_info(); state::STATE.save(deps.storage, &s)?;\n"))
# C23
m("owner_create_unchecked", "C23", OW, ("        if state.admin != info.sender {", "        if state.admin != info.sender && !CONTRACT_ADDR_TO_ICA_ID.has(deps.storage, info.sender.clone()) {"))
m("owner_count_reset", "C23", OW, ("ICA_COUNT.save(deps.storage, &(ica_count + 1))?;", "ICA_COUNT.save(deps.storage, &((ica_count + 1) % 2))?;"))
m("owner_callback_count", "C23", OW, ("let ica_id = CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, info.sender)?;", "let ica_id = CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, info.sender)?.min(1);"))
m("counter_error_success", "C23", CC, ("counter.error(callback_msg);", "counter.success(callback_msg);"))
m("counter_dedup", "C23", "testing/contracts/callback-counter/src/state.rs", ("            self.timeout.push(msg);", "            if self.timeout.last() != Some(&msg) { self.timeout.push(msg); }"))
m("owner_admin_len", "C23", OS, ("if self.admin.to_string() == sender.into() {", "if self.admin.to_string().starts_with(&sender.into()) {"))
