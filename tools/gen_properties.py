import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
H="src/ibc/handshake.rs"; R="src/ibc/relay.rs"; C="src/contract.rs"; S="src/types/state.rs"
T="The existing unit tests call instantiate, update-callback and migrate once each and parse a few constants; no test calls "
p("C01","Only the current owner can make the controller act",
 "Creating a channel, closing it, sending messages or queries, changing the callback address and proposing an ownership transfer succeed only when the sender is the contract's current owner at that moment; accepting a transfer succeeds only for the proposed new owner. A request from anyone else (former owner, proposed owner, creator, callback contract, relayer, the contract itself, look-alike addresses), in any contract state and with any arguments or attached funds, is rejected, emits nothing and leaves everything stored unchanged.",
 ["inputs","histories"],"every reachable contract state x every kind of request with any arguments x every sender role",
 T+"execute with a non-owner except one update-callback call in the initial state; the guarantee ranges over all histories (transfers, closed channels, pending packets) and senders.",
 [C],[("owner assertion at the head of every privileged request","src/contract.rs execute::*"),("ownership updates","src/contract.rs execute::update_ownership")],
 [dict(name="ownership",meaning="current owner, proposed owner and expiry",where="cw-ownable storage item")],["execute entry point","ownership query"])
p("C02","Ownership moves only by accepted two-step transfer and is never lost",
 "The owner is the one named at instantiation (or the instantiator if none is named), and afterwards changes exactly when the address most recently proposed by the then-current owner accepts before the proposal expires; after acceptance the proposal is gone and the previous owner has no rights. Renouncing ownership is always rejected, so at every moment after instantiation there is exactly one owner, and the ownership query reports exactly that owner, proposal and expiry.",
 ["inputs","histories"],"every sequence of proposals (with every kind of expiry), acceptances, renunciations, block advances and other requests, by every sender",
 T+"the ownership request at all.",
 [C,"src/types/msg.rs"],[("renounce is refused before delegating to cw-ownable","src/contract.rs execute::update_ownership"),("owner initialisation","src/contract.rs instantiate")],
 None,["ownership query","execute entry point"])
p("C03","Channels open only at the controller's own request, once per request",
 "The start of a channel handshake on the controller's port is accepted only as the direct effect of an instantiation or an owner's create-channel request, at most once per request; a handshake start submitted by anyone else is rejected and changes nothing, whatever its parameters and whatever happened before. Handshakes started by the counterparty chain (try/confirm steps) and incoming packets are never accepted.",
 ["inputs","histories"],"every history of owner requests, handshakes, closes, timeouts and migrations, with an unsolicited handshake start / try / confirm / incoming packet injected at every point",
 T+"any IBC entry point.",
 [H,R,C],[("one-shot permission flag set by the request and consumed by the handshake start",H+" ibc_channel_open::init"),("try/confirm/receive entry points abort",H+", "+R)],
 [dict(name="allow_channel_open_init",meaning="one-shot permission to start a handshake",where=S)],["ibc_channel_open","ibc_channel_connect","ibc_packet_receive"])
p("C04","A channel is closed from this side only by the owner's close request",
 "A close started on the controller's own chain is accepted only as the direct effect of the owner's close-channel request, at most once per request and only for the tracked channel while it is open; a close started by anyone else at any other moment, or for any other channel, is rejected and changes nothing. An owner's close request while the tracked channel is open results in exactly one close of exactly that channel, and without an open tracked channel it is rejected.",
 ["inputs","histories"],"every history of handshakes, packets, timeouts, closes and reopens, with an unsolicited close injected at every point for every known or unknown channel",
 T+"the close paths.",
 [H,C],[("one-shot permission flag",H+" ibc_channel_close::init"),("open-status check","src/contract.rs execute::close_channel")],
 [dict(name="allow_channel_close_init",meaning="one-shot permission to close",where=S)],["ibc_channel_close","execute entry point"])
p("C05","At most one open channel; an open channel is never displaced",
 "While the tracked channel is open, every attempt to start or complete another channel handshake is rejected, even when several handshakes were started concurrently before the first completed, and the reported channel, account address and destination of later packets stay those of the open channel. Consequently the chain never holds two open channels of the controller at once.",
 ["schedules","histories"],"every interleaving of several handshakes with each other and with closes, timeouts and sends",
 T+"any handshake step; interleavings of concurrent handshakes need an IBC environment.",
 [H],[("active-channel check at handshake start and completion",H+" ibc_channel_open::{init,on_acknowledgement}")],
 [dict(name="ica_channel",meaning="tracked channel and status",where=S)],["channel query","contract-state query","chain's channel table"])
p("C06","Reported channel status always agrees with the chain",
 "After every transaction the channel query reports the most recently completed channel, as open exactly while the chain holds it open and as closed otherwise: closed after an owner close, a counterparty close, or a timeout of a packet of that channel when it is ordered; still open after a timeout on an unordered channel. A late timeout of a packet sent over a previous channel never changes the current channel's status, and a counterparty close or timeout of the tracked channel is never refused.",
 ["schedules","histories"],"every interleaving of sends, acks, timeouts, closes (both sides), reopenings and ordered/unordered channels, including in-flight packets that outlive their channel",
 T+"timeouts or closes; the stale-timeout case needs a five-step history.",
 [R,H,S],[("ordered timeout closes the tracked channel",R+" ibc_packet_timeout"),("close handlers",H+" ibc_channel_close")],
 [dict(name="ica_channel",meaning="tracked channel and status",where=S)],["channel query"])
p("C07","A create request proposes exactly the configured ICS-27 channel",
 "Instantiation and every accepted create-channel request emit exactly one message: a channel-open request on the contract's own port, signed by the contract, over the configured connection, to the configured counterparty port (the ICA host port if unset), with the configured ordering (ordered if unset) and version metadata naming ICS-27 v1, both connection ids, an empty account address, protobuf encoding and the multi-message transaction type. Nothing else is sent.",
 ["inputs","configurations"],"all channel options (connections, port unset/set, ordering unset/ordered/unordered) x instantiate or create in every state x with or without explicit options",
 "The single instantiate test compares the message with the output of the very function that builds it, for one set of options.",
 ["src/ibc/types/stargate.rs","src/ibc/types/metadata.rs",C],[("proposal construction","src/ibc/types/stargate.rs new_ica_channel_open_init_cosmos_msg")],None,["messages emitted by instantiate/execute"])
p("C08","Handshake completes only with valid ICS-27 metadata, recorded exactly",
 "A handshake start or completion is accepted only if the counterparty/controller ports are right and the version metadata parses and names ICS-27 v1, this channel's connection, protobuf encoding, the multi-message type and a well-formed account address (at most 128 alphanumeric characters; mandatory at completion); all valid ones are accepted and every single deviation is rejected with nothing recorded. On completion the queries report exactly the negotiated channel (with the counterparty's version), account address, channel id and encoding; at the start the version returned to the chain is the validated metadata.",
 ["inputs","configurations"],"all combinations of metadata field values and malformed version strings x ports x states at both handshake steps",
 "Tests validate one good and one bad connection id through an internal function; the entry points and the other fields are not exercised.",
 [H,"src/ibc/types/metadata.rs"],[("metadata validation","src/ibc/types/metadata.rs IcaMetadata::validate"),("recording",H+" on_acknowledgement")],None,["ibc_channel_open result","channel query","contract-state query"])
p("C09","A lost channel can always be reopened, with the last-used options",
 "Whenever no channel of the controller is open (never completed, closed by either side, or closed by a timeout, any number of times), an owner's create-channel request succeeds, using the given options or, if none are given, those of the latest accepted instantiation/creation; completing it makes it the tracked open channel. From then on packets go over the new channel on behalf of the account address the host returned for it, whatever happened on earlier channels.",
 ["histories"],"every history of creates, completions, closes, timeouts and sends across three or more successive channels",
 T+"a second channel.",
 [C,H,S],[("stored options","src/contract.rs execute::create_channel"),("account info replaced on completion",H+" on_acknowledgement")],
 [dict(name="channel_open_init_options",meaning="last used options",where=S)],["messages emitted","queries"])
p("C10","One packet per send, on the tracked channel, with the exact envelope",
 "Every accepted send emits exactly one message, a packet on the tracked channel, whose payload is an execute-transaction packet carrying the encoded transaction and exactly the given memo (no memo if none was given), with a timeout timestamp equal to the block time plus the requested number of seconds (600 if unset) and no height timeout. A send before any channel has completed is rejected and nothing is emitted or stored.",
 ["inputs","histories"],"all memos, timeouts, block times, message/query shapes and channel histories",
 T+"sending.",
 ["src/ibc/types/packet.rs",C],[("packet construction","src/ibc/types/packet.rs"),("send handler","src/contract.rs execute::send_cosmos_msgs")],None,["messages emitted by execute"])
p("C11","Supported messages reach the host unaltered, in order, signed by the ICA",
 "For every accepted send, the transaction in the packet contains exactly one host message per requested message, in the same order, each with the correct type and every field value preserved (addresses, amounts, denoms, funds, code ids, salts, payload bytes, admin, labels, vote options and weights, transfer timeouts and memo), with the interchain account as the sender/signer; raw protobuf messages pass through byte for byte. If any requested message is of an unsupported kind the whole request is rejected and nothing is sent.",
 ["inputs"],"all message kinds x boundary field values, and all sequences of message kinds up to the bound, with an unsupported one at any position",
 "One test checks that a vote weight parses; no conversion is tested.",
 ["src/types/cosmos_msg.rs","src/ibc/types/packet.rs"],[("conversion","src/types/cosmos_msg.rs convert_to_proto_any")],None,["packet bytes"])
p("C12","Requested queries reach the host unaltered, in order, after the messages",
 "For every accepted send with queries, the transaction ends with exactly one module-query message signed by the interchain account, holding one request per query, in the same order, with the correct query path and every field value preserved; raw protobuf queries pass through unchanged; without queries there is no such message. If any query is of an unsupported kind the whole request is rejected and nothing is sent.",
 ["inputs"],"all query kinds x boundary field values, and all sequences of query kinds up to the bound, mixed with messages",
 T+"query conversion.",
 ["src/types/query_msg.rs","src/ibc/types/packet.rs"],[("conversion","src/types/query_msg.rs query_to_protobuf"),("packing","src/ibc/types/packet.rs from_cosmos_msgs")],None,["packet bytes"])
p("C13","Query results are attributed to exactly the packet that asked",
 "The acknowledgement callback of a packet carries a query result if and only if that packet contained queries, and the responses in it are interpreted according to that packet's own queries in their order, whatever other packets (on the same or other channels, before or after reopening, with any sequence numbers) are in flight and in whatever order acknowledgements and timeouts arrive. An error acknowledgement of a query packet yields an error result; replies the contract did not ask for are rejected.",
 ["schedules","histories"],"every interleaving of query and non-query packets, acks (result/error), timeouts, closes and reopenings; all sequence-number magnitudes",
 T+"acknowledgements.",
 [R,C,S],[("pending map keyed by channel and sequence","src/contract.rs reply::send_query_packet, "+R)],
 [dict(name="pending_queries",meaning="query descriptors awaiting an ack, by channel and sequence",where=S)],["callback message"])
p("C14","Settled packets leave no bookkeeping behind",
 "Once a packet is settled, by a success acknowledgement, an error acknowledgement or a timeout, the contract stores nothing about it any more, and while in flight only packets with queries are recorded. Hence, when no packets are in flight, the stored data (apart from the channel status) does not depend on how many or which packets were sent and settled before, and no settled packet can affect the handling of a later one.",
 ["schedules","histories"],"every interleaving of sends and settlements over several channels, comparing raw storage",
 T+"packets.",
 [R,C],[("removal on ack/timeout",R)],[dict(name="pending_query",meaning="descriptor between send and reply",where=S),dict(name="pending_queries",meaning="descriptors awaiting ack",where=S)],["raw contract storage"])
p("C15","Query responses are decoded faithfully or reported as an error",
 "For a success acknowledgement of a query packet, the delivered result has the host's height and, for each query in order, the typed response carrying exactly the values the host sent (coins, supplies, metadata incl. units and next page key, contract info, raw/smart data, delegations, validators, bonded denom; absent values reported as absent); raw queries are returned byte for byte with their path. If the number of responses differs or any response cannot be decoded, the result is an error, never a partial or default success.",
 ["inputs"],"all response kinds x boundary and absent field values x sequences of mixed kinds x truncations and count mismatches",
 T+"response decoding.",
 ["src/types/query_msg.rs",R,"src/ibc/types/packet.rs"],[("decoding","src/types/query_msg.rs from_protobuf, result_from_response")],None,["callback message"])
p("C16","Each channel-open, ack and timeout yields exactly one faithful callback",
 "When a callback address is configured at that moment, every accepted handshake completion, acknowledgement and timeout emits exactly one message: an execute call without funds to that address, carrying the channel, account address and encoding, or the acknowledgement, original packet and relayer, exactly as delivered. Without a callback address no message is emitted, and no other event (sends, closes, configuration changes) ever triggers a callback.",
 ["inputs","histories"],"every history of callback-address changes interleaved with handshakes, packets, acks (any content), timeouts, closes",
 T+"callbacks.",
 ["src/types/callbacks.rs",R,H],[("callback construction","src/types/callbacks.rs")],None,["messages emitted by IBC entry points"])
p("C17","A failing callback vetoes the step without lasting effect",
 "If the callback contract fails while handling a callback, the handshake completion, acknowledgement or timeout that triggered it is aborted as a whole: the contract's stored data and reported status are as before and the step can be retried later, with the same result as if it had never been attempted. A failing callback can be cured by changing or clearing the callback address.",
 ["fault_sequences","histories"],"every callback in every history fails once or repeatedly, followed by retries and configuration changes",
 T+"submessage failure handling.",
 [R,H,C],[("callbacks are sent as plain messages without reply","src/types/callbacks.rs into_cosmos_msg users")],None,["transaction outcome","raw storage"])
p("C18","Acknowledgement events identify the packet and its outcome",
 "Every accepted acknowledgement emits exactly one acknowledgement event carrying the packet's sequence, source port and source channel, and either the result bytes in base64 (success) or the error text (failure), exactly as delivered, whether or not a callback address is configured and whether or not the packet had queries. Undecodable acknowledgements are rejected and change nothing.",
 ["inputs","histories"],"all acknowledgement contents x packets x configurations",
 T+"acknowledgements.",
 ["src/ibc/types/events.rs",R],[("event construction","src/ibc/types/events.rs")],None,["response events"])
p("C19","Migration only upgrades, never downgrades, and preserves all state",
 "Migration succeeds only if the stored contract name is this contract's, the stored version is strictly lower in semantic-version order (pre-releases included) and any negotiated channel encoding is protobuf; otherwise it is rejected and nothing changes. A successful migration records the current name and version, emits nothing and changes nothing else: ownership, channel, account, callback address, in-flight query bookkeeping and permissions all carry on as before.",
 ["inputs","histories"],"all stored names/versions/encodings x every reachable contract state, followed by every continuation",
 "Tests try 0.0.1 and 100.0.0 in the initial state only.",
 [C],[("version and encoding checks","src/contract.rs migrate")],None,["migrate entry point","raw storage"])
p("C20","Integrator helpers address the right contract and predict its address",
 "Messages built by the library's helper types are exactly the corresponding wasm messages for the wrapped contract address or code id, with the given payload, label, admin and salt and without funds, and each query helper asks the wrapped contract for exactly what its name says and returns its answer. The address returned by the predictable-address instantiation helper is the one the chain derives for the message it returns (code checksum, creating contract, salt).",
 ["inputs"],"all addresses, code ids, labels, admins, salts, payloads and query answers within the alphabet",
 "No test calls a helper.",
 ["src/helpers.rs"],[("helpers","src/helpers.rs")],None,["returned messages and addresses"])
p("C21","The controller's JSON interface is understood in every library build",
 "Any contract using the library, with or without the query and staking features, can parse every callback the controller emits and obtains the same channel, account, acknowledgement, packet and relayer data, and every request it serialises for the controller (instantiation, create/close channel, sends with and without memo, timeout and queries, callback-address and ownership updates, queries) is parsed by the controller to the same meaning. The callback-receiver macro adds exactly the callback variant to a contract's own message enum, keeping all its other variants.",
 ["inputs","configurations"],"all message and callback shapes x library feature sets",
 "Tests parse two acknowledgement literals; cross-build compatibility is never tested.",
 ["src/types/msg.rs","src/types/callbacks.rs","src/types/query_msg.rs","derive/src/lib.rs"],[("serde attributes","src/types/*"),("variant merge","derive/src/lib.rs")],None,["serialised JSON"])
p("C22","Queries report exactly the configuration established by accepted requests",
 "At every moment the contract-state query reports the callback address most recently set by an accepted instantiation or update (none if cleared) together with the account info of the most recently completed channel (none before the first), and no other event changes them; packets being sent, settled or failing, closes, new handshake attempts, ownership changes and rejected requests leave them untouched. Invalid owner or callback addresses are rejected at instantiation and update.",
 ["histories","inputs"],"every history of accepted and rejected requests and IBC events",
 "Tests check one callback-address update in the initial state.",
 [C,S],[("state item","src/types/state.rs STATE")],[dict(name="state",meaning="account info and callback address",where=S)],["contract-state query"])
p("C23","The bundled example contracts track their controllers faithfully",
 "The example owner contract lets only its admin create controllers and trigger the predefined transfer, registers each created controller under a fresh index at the address the chain will give it, sends the predefined transfer to exactly the indexed controller, and records channel-open callbacks only for the registered controller that sent them. The example callback counter stores every acknowledgement and timeout callback exactly once, in arrival order, in the list matching its outcome.",
 ["histories","inputs"],"every sequence of creations, actions and callbacks by every sender up to the bound",
 "The example contracts have no tests.",
 ["testing/contracts/cw-ica-owner/src/contract.rs","testing/contracts/callback-counter/src/contract.rs"],[("admin check and address registry","testing/contracts/cw-ica-owner/src/contract.rs execute"),("counter","testing/contracts/callback-counter/src/contract.rs")],None,["queries of the example contracts","messages emitted"])
p("C24","Library helpers build and read ICA traffic alike in every build",
 "A contract that uses the crate as a library, in any combination of the query and staking features, gets the controller's own meaning from the packet, channel-proposal, acknowledgement and callback helpers: a packet built from messages (and queries) carries exactly those, in order, signed by the given account, with the given memo, over the given channel, timing out the given number of seconds (600 if unset) after the block time; a channel proposal is the ICS-27 one for the given contract, options and encoding; an acknowledgement is read as exactly the host's result or error, each message result and module-query response at its own index, and never as a success when it is an error or undecodable; a callback message delivers exactly the given callback to the given address without funds. Unsupported messages, queries and encodings are refused, never built in altered form.",
 ["inputs","configurations"],"all message, query, option, acknowledgement and callback values of the alphabets x the four library builds",
 "Tests are compiled with the default features only; no test builds a packet or reads an acknowledgement's results.",
 ["src/ibc/types/packet.rs","src/ibc/types/stargate.rs","src/types/callbacks.rs","src/types/cosmos_msg.rs","src/types/query_msg.rs"],[("packet helpers","src/ibc/types/packet.rs IcaPacketData"),("acknowledgement helpers","src/ibc/types/packet.rs acknowledgement::Data"),("channel proposal","src/ibc/types/stargate.rs"),("feature gates","cfg(feature) in src/types and src/ibc/types")],None,["values returned by the library's public functions"])
p("C25","Every packet in flight can always be settled",
 "A packet that was sent never gets stuck in the contract: whatever has happened since (the channel was replaced or closed by a timeout, ownership moved or was renounced, the callback address changed, other packets were settled in any order), the acknowledgement the host wrote for it (an error, or a readable result) and its timeout are accepted whenever the chain delivers them, on the current or an earlier channel, from any relayer and at any time, unless the configured callback contract itself fails.",
 ["histories","schedules","inputs"],"every history and settlement order x acknowledgement contents x relayers",
 "Tests settle one packet on a freshly written storage item and never after other events.",
 [R,S],[("acknowledgement and timeout handlers","src/ibc/relay.rs"),("pending queries","src/types/state.rs PENDING_QUERIES")],None,["accept/reject of acknowledgements and timeouts"])
p("C26","The controller emits nothing but what was asked of it",
 "An accepted instantiation or channel creation emits exactly one channel proposal, an accepted close exactly one close of the tracked channel, an accepted send exactly one packet over the tracked channel, and a completion, acknowledgement or timeout exactly one call, without funds, to the callback address if one is configured. Nothing else the contract accepts emits any message (callback updates, ownership actions, handshake starts, closes, replies, migrations, incoming packets), whatever funds are attached: the contract never moves coins of its own, never calls any other contract and never sends over another channel.",
 ["histories","inputs"],"every history and input x funds attached",
 "Tests look at the messages of single calls in the initial state and never attach funds.",
 [C,H,R],[("execute handlers","src/contract.rs"),("callbacks","src/ibc/relay.rs, src/ibc/handshake.rs")],None,["messages emitted"])
p("C27","Behaviour does not depend on where and when the controller runs",
 "The same history of requests and events has the same outcome on every chain: with another chain id, block date or height, transaction index (or none, as in begin/end blockers), other channel identifiers or packet sequence numbers, the same steps are accepted and refused, and all messages, callbacks, events and query answers are the same up to those names, numbers and times. Only expiries and timeouts given as absolute times, and times that cannot be represented, may tell chains apart.",
 ["histories","inputs","configurations"],"every pair of runs of the same history in two environments",
 "Tests run in one mock environment with channel-0 and sequence 1.",
 [C,H,R],[("uses of env","src/contract.rs, src/ibc")],None,["accept/reject","messages, events and query answers"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
