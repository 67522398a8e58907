import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
UT="The repository's unit tests call instantiate, migrate and the callback-address update once each with fixed senders; "
p("C01","Only the current owner can operate the controller",
 "At every point of every history, creating a channel, closing the channel, sending messages or queries, changing the callback address and proposing an ownership transfer take effect only when the sender is the current owner; the same request from anyone else (previous owner, proposed owner, callback contract, the contract itself, creator, stranger) is rejected and changes nothing. An otherwise valid request from the current owner is accepted, whoever that owner currently is.",
 ["histories","inputs"],"all senders, all executable messages, all states reachable by histories of ownership changes, handshakes, packets and callbacks",
 UT+"no test runs an unauthorised sender against every message in every contract state, nor after ownership changed hands.",
 ["src/contract.rs"],[("owner assertion in each executable operation","src/contract.rs mod execute"),("cw_ownable","src/contract.rs")],
 [("ownership","owner, pending owner, pending expiry","cw_ownable storage")],["execute entry point","ownership query"])
p("C02","Ownership moves only by timely acceptance and is never vacant",
 "The owner after instantiation is the named owner, or the instantiating sender if none is named (an invalid name is rejected); afterwards the owner changes only when the currently proposed account itself accepts before the proposal's expiry. A later proposal replaces an earlier one, renouncing is always rejected whoever asks, so the contract always has exactly one owner, and the ownership query always reports it together with the outstanding proposal.",
 ["histories","inputs"],"all sequences of transfer proposals, acceptances, renunciations, block times/heights and other operations",
 UT+"the tests read the owner once after instantiation and never run a transfer, an expiry or a renunciation.",
 ["src/contract.rs"],[("renounce rejection + cw_ownable::update_ownership","src/contract.rs execute::update_ownership"),("owner default","src/contract.rs instantiate")],
 [("ownership","owner, pending owner, expiry","cw_ownable storage")],["execute entry point","ownership query"])
p("C03","Only the contract's own request admits one channel opening",
 "A channel opening on the contract's port is accepted only as part of the contract's own open request (at instantiation or an owner's create-channel), each request admits exactly one opening, and none is admitted while the tracked channel is open. Openings started by relayers are refused in every state, and the counterparty-initiated handshake steps (try and confirm) are always refused.",
 ["histories","schedules"],"all interleavings of owner requests, relayer-submitted handshake steps, handshake completions, closures, packet events and migrations",
 "No unit test calls the handshake entry points; the end-to-end suite (needs docker) plays one relayer attempt.",
 ["src/ibc/handshake.rs","src/contract.rs"],[("one-shot permission flag","src/ibc/handshake.rs ibc_channel_open::init"),("open-channel check","src/ibc/handshake.rs"),("unreachable for try/confirm","src/ibc/handshake.rs")],
 [("open permission","set by the contract's request, cleared by the opening","src/types/state.rs")],["ibc channel open/connect entry points","emitted messages"])
p("C04","Channel-open requests carry exactly the chosen channel options",
 "Every channel-open request the contract emits names the contract's own port and address as signer, the chosen connection, the chosen counterparty port (default icahost), the chosen ordering (default ordered), and ICS-27 version metadata built from the chosen connection ids with proto3 encoding, sdk_multi_msg and an empty address. Options given by the owner replace the remembered ones only when that request succeeds, and a later request without options uses the most recently remembered ones.",
 ["inputs","histories"],"all option values and all histories of accepted and failed create-channel requests",
 "test_instantiate compares one emitted message with the output of the very function under test.",
 ["src/contract.rs","src/ibc/types/stargate.rs","src/types/msg.rs"],[("open-init message builder","src/ibc/types/stargate.rs"),("option storage","src/contract.rs create_channel/instantiate")],
 [("remembered options","last accepted channel options","src/types/state.rs")],["messages emitted by instantiate/execute"])
p("C05","The handshake accepts exactly valid ICS-27 metadata",
 "A permitted opening is accepted exactly when the counterparty port is icahost and the version is ICS-27 JSON metadata with version ics27-1, this channel's connection as controller connection, proto3 encoding, sdk_multi_msg, and an address that is empty or at most 128 alphanumeric bytes; the version returned equals the accepted metadata, and an empty version is filled from the previous channel's metadata or else from the remembered options for the same connection. The handshake completes exactly when the counterparty's metadata satisfies the same rules with a non-empty address, and any other metadata is rejected without effect.",
 ["inputs","configurations"],"all version strings (well-formed, mutated field by field, malformed), channels, remembered options and previous channels",
 "Four metadata unit tests sample four fixed strings, and never through the handshake entry points.",
 ["src/ibc/handshake.rs","src/ibc/types/metadata.rs"],[("metadata validation","src/ibc/types/metadata.rs validate"),("empty-version fallback","src/ibc/types/metadata.rs from_channel"),("handshake steps","src/ibc/handshake.rs")],
 [],["ibc channel open/connect entry points"])
p("C06","Recorded channel and account mirror the real channel",
 "After every transaction the channel query reports exactly the channel whose handshake completed last (endpoints, order, connection, negotiated version) and whether it is still open on chain: it becomes closed when it is closed by the owner or the counterparty or when a packet of that same channel times out while it is ordered, and never otherwise; an open channel is never replaced by another. The state query reports the account address, channel and encoding agreed in that handshake, and nothing before the first handshake completes.",
 ["histories","schedules","fault_sequences"],"all interleavings of handshakes (several in flight), closures, acknowledgements, timeouts on old and new channels, failing callbacks, and reopenings with different ordering",
 "No unit test runs a handshake, closure, acknowledgement or timeout; the defects only show with two channels alive in one history.",
 ["src/ibc/handshake.rs","src/ibc/relay.rs","src/types/state.rs"],[("channel state updates","src/ibc/handshake.rs, src/ibc/relay.rs"),("status and ordering predicates","src/types/state.rs")],
 [("tracked channel","last completed channel + status","src/types/state.rs"),("account info","ICA address, channel id, encoding","src/types/state.rs")],["channel and contract-state queries"])
p("C07","A channel closes only by the owner's request or its counterparty",
 "The owner's close request is accepted exactly when the tracked channel is open, and asks the chain to close that channel; each such request admits exactly one closing. Closings initiated by relayers are refused in every state, and a counterparty's closing is accepted exactly when it concerns the tracked channel and that channel is open.",
 ["histories","schedules"],"all interleavings of close requests, relayer closings, counterparty closings, reopenings and in-flight handshakes",
 "No unit test calls the close entry point or closes a channel.",
 ["src/contract.rs","src/ibc/handshake.rs"],[("one-shot close permission","src/ibc/handshake.rs ibc_channel_close::init"),("tracked-channel comparison","src/ibc/handshake.rs ibc_channel_close")],
 [("close permission","set by the owner's request, cleared by the closing","src/types/state.rs")],["ibc channel close entry point","execute entry point"])
p("C08","One send produces one well-formed packet on the account's channel",
 "An accepted send emits exactly one IBC packet, on the channel of the current interchain account, of execute-transaction type, with the given memo (none if omitted), and a timeout timestamp equal to the block time plus the given seconds (600 by default) with no height timeout. A send before any handshake has completed, or whose timeout cannot be represented, is rejected; nothing else ever emits a packet.",
 ["inputs","histories"],"all memos, timeouts, block times, message/query batches and channel histories",
 "No unit test executes a send.",
 ["src/contract.rs","src/ibc/types/packet.rs"],[("packet construction","src/ibc/types/packet.rs to_ibc_msg"),("send operation","src/contract.rs send_cosmos_msgs")],
 [],["messages emitted by execute"])
p("C09","Each message reaches the host as exactly the requested operation",
 "For every batch of supported messages (bank send, IBC transfer, all wasm messages, gov vote and weighted vote, staking delegate/undelegate/redelegate, distribution messages, raw protobuf messages), the transaction in the packet decodes on the host, by the Cosmos SDK / ibc-go / wasmd protobuf definitions, to the same operations in the same order, with every field preserved and the interchain account as the acting account (raw messages byte for byte). If any message in the batch is unsupported, the whole send is rejected and no packet is emitted.",
 ["inputs"],"all batches of messages over all supported and unsupported kinds and all field values (amounts up to the full range, empty and unicode strings, arbitrary bytes, optional fields present or absent)",
 "The only related unit test parses one weighted-vote JSON and never converts a message.",
 ["src/types/cosmos_msg.rs","src/ibc/types/packet.rs"],[("per-message conversion","src/types/cosmos_msg.rs convert_to_any"),("transaction assembly","src/ibc/types/packet.rs from_cosmos_msgs")],
 [],["packet data of the emitted packet"])
p("C10","Queries reach the host as one ordered query message after the messages",
 "When a send includes queries, the packet's transaction ends with exactly one module-safe query message signed by the interchain account, holding one request per query in the given order, each with the host query path of the requested query and request bytes that decode by the SDK/wasmd definitions to the requested parameters (raw queries byte for byte); without queries there is no such message. If any query is of an unsupported kind the whole send is rejected.",
 ["inputs"],"all batches of bank, wasm, staking and raw queries with all parameters, mixed with messages",
 "No unit test converts a query.",
 ["src/types/query_msg.rs","src/ibc/types/packet.rs"],[("query conversion","src/types/query_msg.rs convert_to_protobuf"),("query message assembly","src/ibc/types/packet.rs from_cosmos_msgs")],
 [],["packet data of the emitted packet"])
p("C11","Query answers are matched to the packet that asked",
 "The acknowledgement callback for a packet carries a query result if and only if that very packet (its channel and sequence) carried queries, and the result is interpreted by that packet's own queries in their order, whatever other query packets are outstanding, on this or earlier channels, and in whatever order they are answered, fail or time out. An error acknowledgement or malformed host answer for a query packet yields an error result (or refusal), never a success result, and one packet's outcome never alters another's.",
 ["histories","schedules","inputs"],"all interleavings of several outstanding packets with and without queries, on ordered and unordered channels and across reopened channels with coinciding sequences",
 "No unit test sends or acknowledges a packet; correlation errors need two or more packets in flight.",
 ["src/contract.rs","src/ibc/relay.rs","src/types/state.rs"],[("pending query record keyed by channel and sequence","src/contract.rs reply::send_query_packet, src/ibc/relay.rs")],
 [("pending queries","query kinds by (channel, sequence)","src/types/state.rs")],["callback messages emitted on acknowledgement"])
p("C12","Host query responses are decoded faithfully",
 "For every query kind and every response the host can return, the query result delivered to the callback contract holds, in query order, exactly the values the host encoded (amounts and decimals digit for digit, absent optional values as absent, raw responses as raw bytes with their path) and the host height. If any response is malformed or cannot be represented, or their number differs from the queries asked, the result is an error, never a partial or altered success.",
 ["inputs"],"all query kinds and protobuf responses: boundary amounts, empty lists, absent submessages, unknown fields, truncated or garbage bytes, wrong counts, preceding message responses",
 "No unit test decodes a query response.",
 ["src/types/query_msg.rs","src/ibc/types/packet.rs"],[("response conversion","src/types/query_msg.rs from_protobuf"),("last-response extraction","src/ibc/types/packet.rs acknowledgement")],
 [],["callback messages emitted on acknowledgement"])
p("C13","Each lifecycle event makes exactly one complete callback",
 "If and only if a callback address is configured at that moment, each completed handshake, packet acknowledgement (success or error) and packet timeout emits exactly one callback, without funds, to that address, carrying the complete event (channel, account address and encoding; or acknowledgement contents, original packet, relayer and query result; or original packet and relayer); no other operation emits a callback. The callback address is the one given at instantiation or last set by the owner (an invalid address is rejected), and the state query reports it.",
 ["histories","inputs"],"all event contents and all histories that set, change or clear the callback address between send and event",
 "test_update_callback_address checks storage only; no test observes a callback message.",
 ["src/ibc/relay.rs","src/ibc/handshake.rs","src/types/callbacks.rs","src/contract.rs"],[("callback construction","src/types/callbacks.rs"),("emission per event","src/ibc/relay.rs, src/ibc/handshake.rs")],
 [("callback address","configured receiver","src/types/state.rs")],["messages emitted by connect/ack/timeout"])
p("C14","An event takes effect only together with its callback",
 "If the callback contract fails while handling an event, the event has no effect at all on the contract, and when the event is delivered again the callback has the same content and the event takes effect once. If the callback contract calls back into the controller while handling the event, it already sees the event's effects (for example it can use the channel that was just opened).",
 ["fault_sequences","histories"],"all events, all histories before them, any number of failing attempts, and re-entrant callback contracts",
 "No test involves a callback contract at all; failures and re-entrancy never occur.",
 ["src/ibc/relay.rs","src/ibc/handshake.rs"],[("callbacks emitted as plain messages inside the event's transaction","src/ibc/relay.rs, src/ibc/handshake.rs"),("state saved before the callback is dispatched","src/ibc/relay.rs, src/ibc/handshake.rs")],
 [],["state queries and callbacks before/after failing deliveries"])
p("C15","Acknowledgement events identify the packet and its outcome",
 "Every processed acknowledgement emits exactly one acknowledge_packet event, whether or not a callback address is set, whose attributes are the packet's sequence, source port and source channel together with either the base64 of the success result or the error text, verbatim; no other entry point emits such an event.",
 ["inputs","histories"],"all packets, results and error texts",
 "No unit test acknowledges a packet.",
 ["src/ibc/types/events.rs","src/ibc/relay.rs"],[("event builders","src/ibc/types/events.rs")],[],["events of the acknowledgement response"])
p("C16","Migration is allowed only upwards and preserves everything",
 "A migration succeeds exactly when the stored contract name is this contract's, the stored version is a semantic version strictly lower than the code's, and the recorded account encoding (if any) is proto3; it then records the new version. A successful migration leaves ownership, callback address, remembered options, channel, account and outstanding query packets unchanged and grants no channel-open or channel-close permission; a failed one changes nothing.",
 ["inputs","histories"],"all stored names, version strings (pre-releases, build metadata, malformed), encodings, and histories before and after the migration",
 "Two unit tests sample one lower, one equal and one higher version with one state.",
 ["src/contract.rs"],[("semver and encoding validation","src/contract.rs mod migrate")],[("contract version","cw2 record","cw2 storage")],["migrate entry point","queries and later behaviour"])
p("C17","Malformed or unexpected chain input is rejected without effect",
 "Acknowledgements that are not exactly one JSON result or error, received packets, replies with unknown ids, counterparty-initiated handshake steps, and closings of channels the contract does not track are all rejected: they emit nothing and leave the contract's state and later behaviour unchanged. No such input ever leaves the contract unable to process the valid input that follows.",
 ["inputs","histories","fault_sequences"],"all byte strings and message contents at the chain-facing entry points in all reachable states",
 "One unit test parses two well-formed acknowledgements.",
 ["src/ibc/relay.rs","src/ibc/handshake.rs","src/contract.rs"],[("strict decoding and rejection","src/ibc/relay.rs, src/ibc/handshake.rs, src/contract.rs reply")],[],["all IBC entry points, reply"])
p("C18","Callback receivers can decode every callback",
 "A contract whose execute enum is extended with the repository's callback macro decodes every callback the controller can emit into the same content, while its own messages keep their meaning; this holds for the macro in this repository and for any enum it is applied to. The callback wire format is the documented one (receive_ica_callback wrapping the snake-case event).",
 ["inputs","programs"],"all callback contents and a range of receiver enums",
 "The derive crate has no tests, and no test round-trips a callback.",
 ["derive/src/lib.rs","src/types/callbacks.rs"],[("variant merging macro","derive/src/lib.rs"),("callback serialisation","src/types/callbacks.rs")],[],["receiver's deserialisation of emitted callbacks"])
p("C19","The helper API builds messages the contract and chain understand",
 "For all inputs, the helper library's execute, instantiate, instantiate2, migrate and admin messages target the given contract or code with the given label, admin, salt and no funds and carry JSON that the contract decodes to the original request; the address predicted by instantiate2 is the chain's predictable address for that code checksum, creator and salt; and the query helpers return exactly what the contract's queries return.",
 ["inputs"],"all helper arguments",
 "The helpers have no unit tests.",
 ["src/helpers.rs"],[("helper message builders","src/helpers.rs")],[],["messages and values returned by the helpers"])
p("C20","Requests and answers keep their documented JSON form",
 "Every documented JSON form of every message is accepted with its documented meaning: optional fields may be omitted or null, a null message list or a null or missing query list means none; unknown operations and malformed requests are rejected without effect. Query answers have the documented JSON fields, and a message serialised by the library decodes to the same message.",
 ["inputs"],"all messages and all documented variants of their JSON forms",
 "No unit test decodes an execute, query or instantiate message from JSON.",
 ["src/types/msg.rs","src/types/state.rs","src/types/query_msg.rs"],[("serde attributes","src/types/msg.rs")],[],["JSON accepted and produced by the entry points"])
p("C21","Library builds produce the same packets as the contract",
 "A contract that uses this crate as a library without its entry points, with any combination of the optional staking and query features, builds for the same messages, queries, memo and timeout a packet the host decodes to the same transaction as the deployed contract's packet, and its acknowledgement decoding returns the host's query answers at the requested position.",
 ["inputs","configurations"],"all messages and queries available under each feature combination",
 "No unit test runs under a reduced feature set or compares feature sets.",
 ["src/ibc/types/packet.rs","src/types/cosmos_msg.rs","src/types/query_msg.rs","Cargo.toml"],[("feature-gated packet construction","src/ibc/types/packet.rs")],[],["library functions under each feature set"])
p("C22","State stored by deployed contracts keeps its meaning",
 "Storage written by the released contract, in its released layout, keeps its meaning under the current code: ownership, callback address, channel, account, remembered options, channel permissions and the query packets awaiting an answer are all read and honoured, and storage written by the current code is in that same layout.",
 ["inputs","histories"],"all stored states reachable by the released contract",
 "The unit tests write and read storage through the same accessors, so a changed layout goes unnoticed.",
 ["src/types/state.rs","src/types/keys.rs"],[("storage keys and serde forms","src/types/state.rs")],[],["raw storage, queries, later behaviour"])
p("C23","The owner can always get a working account back",
 "From every reachable state, whatever happened before (lost or closed channels, abandoned handshakes, timeouts, failed or re-entrant callbacks, hostile relayer or counterparty input, migrations, ownership changes), the current owner can reach a working interchain account with ordinary requests and an honest relayer: if the channel is closed or was never opened, a create-channel request and its handshake succeed, and then a send reaches the host and its answer is processed. No history leaves the contract permanently unable to open, use or close its channel.",
 ["histories","fault_sequences"],"all histories, each continued by the owner's recovery steps",
 "The unit tests never drive the contract into a bad state, let alone recover from one.",
 ["src/contract.rs","src/ibc/handshake.rs","src/ibc/relay.rs"],[("permissions and channel state machine","src/ibc/handshake.rs"),("send precondition","src/contract.rs send_cosmos_msgs")],
 [("permission flags, tracked channel, account","all that could get stuck","src/types/state.rs")],["execute and IBC entry points after arbitrary histories"])
p("C24","The contract is deterministic and instances are independent",
 "Given the same storage and the same inputs, every entry point gives the same response (messages, events, data, acceptance) and leaves the same storage, byte for byte, however often it is repeated and whatever other instances of the contract did before in the same process; results never depend on anything but storage, message, environment and sender. Queries never change storage.",
 ["histories","inputs"],"all histories, repeated after other histories of other instances",
 "Each unit test runs once in a fresh process state and never compares two runs; validators that disagree halt the chain.",
 ["src/contract.rs","src/ibc/relay.rs","src/ibc/handshake.rs"],[("no state outside storage","all entry points")],
 [],["responses and raw storage of every call"])
p("C25","Stored data stays bounded by what is still outstanding",
 "However long the contract is used, its storage holds only its fixed records plus at most one entry for each query packet whose outcome (acknowledgement, error or timeout) has not been processed; when every packet got its outcome, nothing of the packets is left. The size of the records does not grow with the length of the history.",
 ["histories"],"all histories of sends, outcomes in any order, channel closures and reopenings",
 "No unit test sends a packet or looks at the number of stored entries.",
 ["src/contract.rs","src/ibc/relay.rs","src/types/state.rs"],[("pending query entries removed on every outcome","src/ibc/relay.rs"),("temporary query record removed in the reply","src/contract.rs reply")],
 [("pending queries","one entry per outstanding query packet","src/types/state.rs")],["raw storage after every transaction"])
p("C26","The library's channel and state building blocks follow the ICS-27 rules",
 "For all arguments, a contract that uses this crate as a library gets: an open request for the given contract's own port and signer with the given connection, counterparty port (default icahost), ordering (default ordered) and metadata carrying the given encoding (default proto3); metadata that is written and read back unchanged, validated by exactly the ICS-27 rules and, when a version is missing, taken from the previous channel or else from remembered options for the same connection. Channel and account records report exactly what was put into them, and acknowledgement events identify packet and outcome.",
 ["inputs"],"all arguments of the public channel, metadata, state and event functions",
 "Four unit tests sample four metadata values; the other functions are only used by the tests as their own oracle.",
 ["src/ibc/types/stargate.rs","src/ibc/types/metadata.rs","src/ibc/types/events.rs","src/types/state.rs","src/types/msg.rs"],
 [("open request builder","src/ibc/types/stargate.rs"),("metadata","src/ibc/types/metadata.rs"),("state records","src/types/state.rs")],[],["values returned by the library functions"])
p("C27","The published schema describes the contract",
 "The JSON schema written by the repository's schema program describes the deployed contract: every documented request the contract accepts conforms to it, every answer the contract gives to a query conforms to the published response schema of that query, and every request that conforms to it is understood (it may be refused for its content, not for its form).",
 ["inputs","histories"],"all requests in all documented forms, all requests generated from the schema, and the answers in all reachable states",
 "No test generates the schema or compares it with what the contract accepts or answers.",
 ["src/bin/schema.rs","src/types/msg.rs","src/types/state.rs"],[("schema program","src/bin/schema.rs"),("schema derivations and returns attributes","src/types/msg.rs")],[],["generated schema files; JSON accepted and produced by the entry points"])
p("C28","A contract that owns several controllers operates each one separately",
 "The repository's owner contract (cw-ica-owner): only its admin (the named one, or else its instantiator) can create accounts and send the predefined action. A creation instantiates exactly one controller, at the address recorded under the next id, owned by, administered by and calling back to the owner contract, and opens its channel with the given options. The predefined action on an account sends exactly one packet, on that account's own channel, with one bank send of 100 stake from that account to the given address, and is rejected when the account does not exist or its channel is not open. A callback is accepted only from one of the contract's own controllers; a completed handshake is recorded (id, account address, encoding, channel, open) for exactly that controller and nothing else changes the record. The queries report exactly this.",
 ["histories","inputs"],"all histories of several owner contracts, their controllers, other controllers, relayers and strangers on one chain",
 "The contract has no tests; its two end-to-end scenarios create one account.",
 ["testing/contracts/cw-ica-owner/src/contract.rs","testing/contracts/cw-ica-owner/src/state.rs","testing/contracts/cw-ica-owner/src/msg.rs","src/helpers.rs"],
 [("account creation","testing/contracts/cw-ica-owner/src/contract.rs create_ica_contract"),("predefined action","testing/contracts/cw-ica-owner/src/contract.rs send_predefined_action"),("callback handler","testing/contracts/cw-ica-owner/src/contract.rs ica_callback_handler")],
 [("accounts","controller address and last completed handshake per id","testing/contracts/cw-ica-owner/src/state.rs"),("reverse index","controller address to id","testing/contracts/cw-ica-owner/src/state.rs")],["queries of the owner contract and its controllers; instantiations and packets on the chain"])
p("C29","The callback counter records every outcome exactly once",
 "The repository's callback counter, as callback receiver of any number of controllers, holds after every history exactly the outcome callbacks it received, in order and with their full content: successful acknowledgements (whatever their query result) under success, error acknowledgements under error, timeouts under timeout; completed handshakes are accepted and not recorded. Its query reports exactly this, and separate counters are independent.",
 ["histories","inputs"],"all histories of several controllers reporting to several counters, and callbacks of any content sent directly",
 "The contract has no tests; end-to-end scenarios only look at how many entries one controller produced.",
 ["testing/contracts/callback-counter/src/contract.rs","testing/contracts/callback-counter/src/state.rs","src/types/callbacks.rs"],
 [("callback handler","testing/contracts/callback-counter/src/contract.rs ica_callback_handler")],
 [("callback counter","lists of recorded callbacks","testing/contracts/callback-counter/src/state.rs")],["counter query after every transaction"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
print(len(P))
