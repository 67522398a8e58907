//! The ICA host's reading of a packet: JSON packet data -> CosmosTx -> operations, from field tables written down from
//! the Cosmos SDK, ibc-go and wasmd protobuf definitions (not from the crate under test).
use crate::pb::{decode, Desc, K};
use serde_json::{json, Value};

pub const COIN: Desc = &[(1, "denom", K::Str), (2, "amount", K::Str)];
const HEIGHT: Desc = &[(1, "revision", K::U64), (2, "height", K::U64)];
const WVO: Desc = &[(1, "option", K::U64), (2, "weight", K::Str)];
const ANY: Desc = &[(1, "type_url", K::Str), (2, "value", K::Bytes)];
const TX: Desc = &[(1, "messages", K::RepMsg(ANY))];
const REQ: Desc = &[(1, "path", K::Str), (2, "data", K::Bytes)];
const MQS: Desc = &[(1, "signer", K::Str), (2, "requests", K::RepMsg(REQ))];
const PAGE: Desc = &[(1, "key", K::Bytes), (2, "offset", K::U64), (3, "limit", K::U64), (4, "count_total", K::U64), (5, "reverse", K::U64)];

pub const QUERY_MSG: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe";

fn msg_desc(url: &str) -> Option<(&'static str, Desc)> {
    Some(match url {
        "/cosmos.bank.v1beta1.MsgSend" => ("bank_send", &[(1, "from", K::Str), (2, "to", K::Str), (3, "amount", K::RepMsg(COIN))]),
        "/ibc.applications.transfer.v1.MsgTransfer" => (
            "transfer",
            &[
                (1, "port", K::Str),
                (2, "channel", K::Str),
                (3, "token", K::Msg(COIN)),
                (4, "sender", K::Str),
                (5, "receiver", K::Str),
                (6, "height", K::Msg(HEIGHT)),
                (7, "ts", K::U64),
                (8, "memo", K::Str),
                (9, "encoding", K::Str),
            ],
        ),
        "/cosmwasm.wasm.v1.MsgExecuteContract" => ("wasm_execute", &[(1, "sender", K::Str), (2, "contract", K::Str), (3, "msg", K::Bytes), (5, "funds", K::RepMsg(COIN))]),
        "/cosmwasm.wasm.v1.MsgInstantiateContract" => (
            "wasm_instantiate",
            &[(1, "sender", K::Str), (2, "admin", K::Str), (3, "code_id", K::U64), (4, "label", K::Str), (5, "msg", K::Bytes), (6, "funds", K::RepMsg(COIN))],
        ),
        "/cosmwasm.wasm.v1.MsgInstantiateContract2" => (
            "wasm_instantiate2",
            &[
                (1, "sender", K::Str),
                (2, "admin", K::Str),
                (3, "code_id", K::U64),
                (4, "label", K::Str),
                (5, "msg", K::Bytes),
                (6, "funds", K::RepMsg(COIN)),
                (7, "salt", K::Bytes),
                (8, "fix_msg", K::U64),
            ],
        ),
        "/cosmwasm.wasm.v1.MsgMigrateContract" => ("wasm_migrate", &[(1, "sender", K::Str), (2, "contract", K::Str), (3, "code_id", K::U64), (4, "msg", K::Bytes)]),
        "/cosmwasm.wasm.v1.MsgUpdateAdmin" => ("wasm_update_admin", &[(1, "sender", K::Str), (2, "new_admin", K::Str), (3, "contract", K::Str)]),
        "/cosmwasm.wasm.v1.MsgClearAdmin" => ("wasm_clear_admin", &[(1, "sender", K::Str), (3, "contract", K::Str)]),
        "/cosmos.gov.v1beta1.MsgVote" => ("vote", &[(1, "proposal_id", K::U64), (2, "voter", K::Str), (3, "option", K::U64)]),
        "/cosmos.gov.v1.MsgVote" => ("vote", &[(1, "proposal_id", K::U64), (2, "voter", K::Str), (3, "option", K::U64), (4, "metadata", K::Str)]),
        "/cosmos.gov.v1.MsgVoteWeighted" => ("vote_weighted", &[(1, "proposal_id", K::U64), (2, "voter", K::Str), (3, "options", K::RepMsg(WVO)), (4, "metadata", K::Str)]),
        "/cosmos.staking.v1beta1.MsgDelegate" => ("delegate", &[(1, "delegator", K::Str), (2, "validator", K::Str), (3, "amount", K::Msg(COIN))]),
        "/cosmos.staking.v1beta1.MsgUndelegate" => ("undelegate", &[(1, "delegator", K::Str), (2, "validator", K::Str), (3, "amount", K::Msg(COIN))]),
        "/cosmos.staking.v1beta1.MsgBeginRedelegate" => ("redelegate", &[(1, "delegator", K::Str), (2, "src", K::Str), (3, "dst", K::Str), (4, "amount", K::Msg(COIN))]),
        "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward" => ("withdraw_reward", &[(1, "delegator", K::Str), (2, "validator", K::Str)]),
        "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress" => ("set_withdraw_address", &[(1, "delegator", K::Str), (2, "address", K::Str)]),
        "/cosmos.distribution.v1beta1.MsgFundCommunityPool" => ("fund_pool", &[(1, "amount", K::RepMsg(COIN)), (2, "depositor", K::Str)]),
        _ => return None,
    })
}

fn query_desc(path: &str) -> Option<(&'static str, Desc)> {
    Some(match path {
        "/cosmos.bank.v1beta1.Query/Balance" => ("balance", &[(1, "address", K::Str), (2, "denom", K::Str), (3, "resolve_denom", K::U64)]),
        "/cosmos.bank.v1beta1.Query/AllBalances" => ("all_balances", &[(1, "address", K::Str), (2, "page", K::Msg(PAGE)), (3, "resolve_denom", K::U64)]),
        "/cosmos.bank.v1beta1.Query/DenomMetadata" => ("denom_metadata", &[(1, "denom", K::Str)]),
        "/cosmos.bank.v1beta1.Query/DenomsMetadata" => ("all_denom_metadata", &[(1, "page", K::Msg(PAGE))]),
        "/cosmos.bank.v1beta1.Query/SupplyOf" => ("supply", &[(1, "denom", K::Str)]),
        "/cosmwasm.wasm.v1.Query/SmartContractState" => ("smart", &[(1, "address", K::Str), (2, "data", K::Bytes)]),
        "/cosmwasm.wasm.v1.Query/RawContractState" => ("raw", &[(1, "address", K::Str), (2, "data", K::Bytes)]),
        "/cosmwasm.wasm.v1.Query/ContractInfo" => ("contract_info", &[(1, "address", K::Str)]),
        "/cosmos.staking.v1beta1.Query/Validator" => ("validator", &[(1, "address", K::Str)]),
        "/cosmos.staking.v1beta1.Query/Validators" => ("all_validators", &[(1, "status", K::Str), (2, "page", K::Msg(PAGE))]),
        "/cosmos.staking.v1beta1.Query/Delegation" => ("delegation", &[(1, "delegator", K::Str), (2, "validator", K::Str)]),
        "/cosmos.staking.v1beta1.Query/DelegatorDelegations" => ("all_delegations", &[(1, "delegator", K::Str), (2, "page", K::Msg(PAGE))]),
        "/cosmos.staking.v1beta1.Query/Params" => ("bonded_denom", &[]),
        _ => return None,
    })
}

pub fn empty_page() -> Value {
    decode(&[], PAGE).unwrap()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// a typed reading of an Any; `{type_url, value}` if the type is not in the tables
pub fn read_any(url: &str, value: &[u8]) -> Result<Value, String> {
    match msg_desc(url) {
        None => Ok(json!({"type_url":url,"value":crate::hex(value)})),
        Some((op, d)) => {
            let mut v = decode(value, d).map_err(|e| format!("{url}: {e}"))?;
            let m = v.as_object_mut().unwrap();
            m.insert("op".into(), json!(op));
            if op == "vote" && !m.contains_key("metadata") {
                m.insert("metadata".into(), json!(""));
            }
            if op == "vote_weighted" {
                for o in m["options"].as_array_mut().unwrap() {
                    let w = o["weight"].as_str().unwrap().to_string();
                    o["weight"] = json!(crate::gen::canon_dec(&w).ok_or(format!("bad decimal {w}"))?);
                }
            }
            Ok(v)
        }
    }
}

pub fn read_request(path: &str, data: &[u8]) -> Result<Value, String> {
    match query_desc(path) {
        None => Ok(json!({"path":path,"data":crate::hex(data)})),
        Some((q, d)) => {
            let mut v = decode(data, d).map_err(|e| format!("{path}: {e}"))?;
            v.as_object_mut().unwrap().insert("query".into(), json!(q));
            Ok(v)
        }
    }
}

/// Anys of a CosmosTx
pub fn read_tx(data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let v = decode(data, TX)?;
    Ok(v["messages"].as_array().unwrap().iter().map(|a| (a["type_url"].as_str().unwrap().to_string(), unhex(a["value"].as_str().unwrap()))).collect())
}

/// (signer, [(path, data)])
pub fn read_query_msg(value: &[u8]) -> Result<(String, Vec<(String, Vec<u8>)>), String> {
    let v = decode(value, MQS)?;
    Ok((
        v["signer"].as_str().unwrap().to_string(),
        v["requests"].as_array().unwrap().iter().map(|a| (a["path"].as_str().unwrap().to_string(), unhex(a["data"].as_str().unwrap()))).collect(),
    ))
}

pub struct Packet {
    pub typ_ok: bool,
    pub data: Vec<u8>,
    pub memo: String,
}

/// JSON packet data as ibc-go's (gogoproto) JSON decoder reads it
pub fn read_packet(b: &[u8]) -> Result<Packet, String> {
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("packet is not JSON: {e}"))?;
    let m = v.as_object().ok_or("packet is not a JSON object")?;
    for k in m.keys() {
        if !["type", "data", "memo"].contains(&k.as_str()) {
            return Err(format!("unknown packet field {k}"));
        }
    }
    let typ_ok = match m.get("type") {
        Some(Value::Number(n)) => n.as_u64() == Some(1),
        Some(Value::String(s)) => s == "TYPE_EXECUTE_TX",
        _ => false,
    };
    let data = match m.get("data") {
        Some(Value::String(s)) => crate::unb64(s)?,
        Some(Value::Array(a)) => a
            .iter()
            .map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok()).ok_or("packet data element".to_string()))
            .collect::<Result<_, _>>()?,
        None | Some(Value::Null) => vec![],
        _ => return Err("packet data".into()),
    };
    let memo = match m.get("memo") {
        None | Some(Value::Null) => String::new(),
        Some(Value::String(s)) => s.clone(),
        _ => return Err("packet memo".into()),
    };
    Ok(Packet { typ_ok, data, memo })
}

/// Checks the transaction of a packet against the requested messages. Err((is_query_part, text)).
pub fn check_tx(data: &[u8], ica: &str, msgs: &[crate::msgs::AMsg], queries: &[crate::queries::AQuery]) -> Result<(), (bool, String)> {
    let anys = read_tx(data).map_err(|e| (false, format!("transaction does not decode: {e}")))?;
    let want = msgs.len() + usize::from(!queries.is_empty());
    // messages first, then the single query message
    for (i, m) in msgs.iter().enumerate() {
        let Some((url, val)) = anys.get(i) else {
            return Err((false, format!("message {i} ({}) is missing from the transaction", m.kind())));
        };
        let exp = m.expected(ica);
        let got = if let crate::msgs::AMsg::Stargate { .. } = m {
            json!({"type_url":url,"value":crate::hex(val)})
        } else {
            read_any(url, val).map_err(|e| (false, e))?
        };
        if got != exp {
            return Err((false, format!("message {i}: host sees {got}, requested {exp}")));
        }
    }
    if !queries.is_empty() {
        let Some((url, val)) = anys.get(msgs.len()) else {
            return Err((true, "query message is missing".into()));
        };
        if url != QUERY_MSG {
            return Err((true, format!("expected the query message after the messages, found {url}")));
        }
        let (signer, reqs) = read_query_msg(val).map_err(|e| (true, e))?;
        if signer != ica {
            return Err((true, format!("query signer {signer}, account {ica}")));
        }
        if reqs.len() != queries.len() {
            return Err((true, format!("{} requests for {} queries", reqs.len(), queries.len())));
        }
        for (i, (q, (path, d))) in queries.iter().zip(&reqs).enumerate() {
            let exp = q.expected();
            let got = if let crate::queries::AQuery::Stargate { .. } = q {
                json!({"path":path,"data":crate::hex(d)})
            } else {
                read_request(path, d).map_err(|e| (true, e))?
            };
            if got != exp {
                return Err((true, format!("query {i}: host sees {got}, requested {exp}")));
            }
        }
    }
    if anys.len() != want {
        let q = anys.len() > want && anys[want..].iter().any(|(u, _)| u == QUERY_MSG);
        return Err((q, format!("transaction has {} messages, expected {want}", anys.len())));
    }
    Ok(())
}

/// ibc.core.channel.v1.MsgChannelOpenInit
pub const OPENINIT: Desc = &[
    (1, "port", K::Str),
    (
        2,
        "channel",
        K::Msg(&[
            (1, "state", K::U64),
            (2, "ordering", K::U64),
            (3, "counterparty", K::Msg(&[(1, "port", K::Str), (2, "channel", K::Str)])),
            (4, "hops", K::RepStr),
            (5, "version", K::Str),
        ]),
    ),
    (3, "signer", K::Str),
];
