//! Abstract messages: their cosmwasm JSON form (what the owner sends) and the operation the host must see.
use crate::gen::*;
use crate::{b64, hex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AMsg {
    BankSend { to: String, amount: Vec<Coin> },
    Transfer { channel: String, to: String, amount: Coin, block: Option<(u64, u64)>, ts: Option<u64>, memo: Option<String> },
    WasmExecute { contract: String, msg: Vec<u8>, funds: Vec<Coin> },
    WasmInstantiate { admin: Option<String>, code_id: u64, msg: Vec<u8>, funds: Vec<Coin>, label: String },
    WasmInstantiate2 { admin: Option<String>, code_id: u64, msg: Vec<u8>, funds: Vec<Coin>, label: String, salt: Vec<u8> },
    WasmMigrate { contract: String, code_id: u64, msg: Vec<u8> },
    WasmUpdateAdmin { contract: String, admin: String },
    WasmClearAdmin { contract: String },
    Vote { id: u64, option: u8 },
    VoteWeighted { id: u64, options: Vec<(u8, String)> },
    Delegate { validator: String, amount: Coin },
    Undelegate { validator: String, amount: Coin },
    Redelegate { src: String, dst: String, amount: Coin },
    WithdrawReward { validator: String },
    SetWithdrawAddress { address: String },
    FundPool { amount: Vec<Coin> },
    Stargate { type_url: String, value: Vec<u8> },
    // unsupported kinds
    BankBurn { amount: Vec<Coin> },
    IbcSendPacket { channel: String, data: Vec<u8>, ts: u64 },
    IbcCloseChannel { channel: String },
    Custom,
}

/// index 0..4 -> (cosmwasm JSON name, SDK enum number)
const VOTES: [(&str, u64); 4] = [("yes", 1), ("abstain", 2), ("no", 3), ("no_with_veto", 4)];

fn cs(c: &[Coin]) -> Value {
    Value::Array(c.iter().map(Coin::json).collect())
}

impl AMsg {
    pub fn supported(&self) -> bool {
        !matches!(self, AMsg::BankBurn { .. } | AMsg::IbcSendPacket { .. } | AMsg::IbcCloseChannel { .. } | AMsg::Custom)
    }
    pub fn needs_staking(&self) -> bool {
        matches!(
            self,
            AMsg::Delegate { .. } | AMsg::Undelegate { .. } | AMsg::Redelegate { .. } | AMsg::WithdrawReward { .. } | AMsg::SetWithdrawAddress { .. } | AMsg::FundPool { .. }
        )
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AMsg::BankSend { .. } => "bank_send",
            AMsg::Transfer { .. } => "transfer",
            AMsg::WasmExecute { .. } => "wasm_execute",
            AMsg::WasmInstantiate { .. } => "wasm_instantiate",
            AMsg::WasmInstantiate2 { .. } => "wasm_instantiate2",
            AMsg::WasmMigrate { .. } => "wasm_migrate",
            AMsg::WasmUpdateAdmin { .. } => "wasm_update_admin",
            AMsg::WasmClearAdmin { .. } => "wasm_clear_admin",
            AMsg::Vote { .. } => "vote",
            AMsg::VoteWeighted { .. } => "vote_weighted",
            AMsg::Delegate { .. } => "delegate",
            AMsg::Undelegate { .. } => "undelegate",
            AMsg::Redelegate { .. } => "redelegate",
            AMsg::WithdrawReward { .. } => "withdraw_reward",
            AMsg::SetWithdrawAddress { .. } => "set_withdraw_address",
            AMsg::FundPool { .. } => "fund_pool",
            AMsg::Stargate { .. } => "stargate",
            _ => "unsupported",
        }
    }
    /// cosmwasm JSON
    pub fn json(&self) -> Value {
        match self {
            AMsg::BankSend { to, amount } => json!({"bank":{"send":{"to_address":to,"amount":cs(amount)}}}),
            AMsg::Transfer { channel, to, amount, block, ts, memo } => {
                let b = block.map(|(r, h)| json!({"revision":r,"height":h}));
                json!({"ibc":{"transfer":{"channel_id":channel,"to_address":to,"amount":amount.json(),
                    "timeout":{"block":b,"timestamp":ts.map(|t|t.to_string())},"memo":memo}}})
            }
            AMsg::WasmExecute { contract, msg, funds } => json!({"wasm":{"execute":{"contract_addr":contract,"msg":b64(msg),"funds":cs(funds)}}}),
            AMsg::WasmInstantiate { admin, code_id, msg, funds, label } => {
                json!({"wasm":{"instantiate":{"admin":admin,"code_id":code_id,"msg":b64(msg),"funds":cs(funds),"label":label}}})
            }
            AMsg::WasmInstantiate2 { admin, code_id, msg, funds, label, salt } => {
                json!({"wasm":{"instantiate2":{"admin":admin,"code_id":code_id,"msg":b64(msg),"funds":cs(funds),"label":label,"salt":b64(salt)}}})
            }
            AMsg::WasmMigrate { contract, code_id, msg } => json!({"wasm":{"migrate":{"contract_addr":contract,"new_code_id":code_id,"msg":b64(msg)}}}),
            AMsg::WasmUpdateAdmin { contract, admin } => json!({"wasm":{"update_admin":{"contract_addr":contract,"admin":admin}}}),
            AMsg::WasmClearAdmin { contract } => json!({"wasm":{"clear_admin":{"contract_addr":contract}}}),
            AMsg::Vote { id, option } => json!({"gov":{"vote":{"proposal_id":id,"option":VOTES[*option as usize].0}}}),
            AMsg::VoteWeighted { id, options } => json!({"gov":{"vote_weighted":{"proposal_id":id,
                "options":options.iter().map(|(o,w)|json!({"option":VOTES[*o as usize].0,"weight":w})).collect::<Vec<_>>()}}}),
            AMsg::Delegate { validator, amount } => json!({"staking":{"delegate":{"validator":validator,"amount":amount.json()}}}),
            AMsg::Undelegate { validator, amount } => json!({"staking":{"undelegate":{"validator":validator,"amount":amount.json()}}}),
            AMsg::Redelegate { src, dst, amount } => json!({"staking":{"redelegate":{"src_validator":src,"dst_validator":dst,"amount":amount.json()}}}),
            AMsg::WithdrawReward { validator } => json!({"distribution":{"withdraw_delegator_reward":{"validator":validator}}}),
            AMsg::SetWithdrawAddress { address } => json!({"distribution":{"set_withdraw_address":{"address":address}}}),
            AMsg::FundPool { amount } => json!({"distribution":{"fund_community_pool":{"amount":cs(amount)}}}),
            AMsg::Stargate { type_url, value } => json!({"stargate":{"type_url":type_url,"value":b64(value)}}),
            AMsg::BankBurn { amount } => json!({"bank":{"burn":{"amount":cs(amount)}}}),
            AMsg::IbcSendPacket { channel, data, ts } => json!({"ibc":{"send_packet":{"channel_id":channel,"data":b64(data),"timeout":{"block":null,"timestamp":ts.to_string()}}}}),
            AMsg::IbcCloseChannel { channel } => json!({"ibc":{"close_channel":{"channel_id":channel}}}),
            AMsg::Custom => json!({"custom":{}}),
        }
    }
    /// what the host must see, in the form produced by [`crate::host::read_any`]
    pub fn expected(&self, ica: &str) -> Value {
        match self {
            AMsg::BankSend { to, amount } => json!({"op":"bank_send","from":ica,"to":to,"amount":cs(amount)}),
            AMsg::Transfer { channel, to, amount, block, ts, memo } => {
                let (r, h) = block.unwrap_or((0, 0));
                json!({"op":"transfer","port":"transfer","channel":channel,"token":amount.json(),"sender":ica,"receiver":to,
                    "height":{"revision":r,"height":h},"ts":ts.unwrap_or(0),"memo":memo.clone().unwrap_or_default(),"encoding":""})
            }
            AMsg::WasmExecute { contract, msg, funds } => json!({"op":"wasm_execute","sender":ica,"contract":contract,"msg":hex(msg),"funds":cs(funds)}),
            AMsg::WasmInstantiate { admin, code_id, msg, funds, label } => json!({"op":"wasm_instantiate","sender":ica,
                "admin":admin.clone().unwrap_or_default(),"code_id":code_id,"msg":hex(msg),"funds":cs(funds),"label":label}),
            AMsg::WasmInstantiate2 { admin, code_id, msg, funds, label, salt } => json!({"op":"wasm_instantiate2","sender":ica,
                "admin":admin.clone().unwrap_or_default(),"code_id":code_id,"msg":hex(msg),"funds":cs(funds),"label":label,"salt":hex(salt),"fix_msg":0}),
            AMsg::WasmMigrate { contract, code_id, msg } => json!({"op":"wasm_migrate","sender":ica,"contract":contract,"code_id":code_id,"msg":hex(msg)}),
            AMsg::WasmUpdateAdmin { contract, admin } => json!({"op":"wasm_update_admin","sender":ica,"contract":contract,"new_admin":admin}),
            AMsg::WasmClearAdmin { contract } => json!({"op":"wasm_clear_admin","sender":ica,"contract":contract}),
            AMsg::Vote { id, option } => json!({"op":"vote","proposal_id":id,"voter":ica,"option":VOTES[*option as usize].1,"metadata":""}),
            AMsg::VoteWeighted { id, options } => json!({"op":"vote_weighted","proposal_id":id,"voter":ica,"metadata":"",
                "options":options.iter().map(|(o,w)|json!({"option":VOTES[*o as usize].1,"weight":canon_dec(w).unwrap()})).collect::<Vec<_>>()}),
            AMsg::Delegate { validator, amount } => json!({"op":"delegate","delegator":ica,"validator":validator,"amount":amount.json()}),
            AMsg::Undelegate { validator, amount } => json!({"op":"undelegate","delegator":ica,"validator":validator,"amount":amount.json()}),
            AMsg::Redelegate { src, dst, amount } => json!({"op":"redelegate","delegator":ica,"src":src,"dst":dst,"amount":amount.json()}),
            AMsg::WithdrawReward { validator } => json!({"op":"withdraw_reward","delegator":ica,"validator":validator}),
            AMsg::SetWithdrawAddress { address } => json!({"op":"set_withdraw_address","delegator":ica,"address":address}),
            AMsg::FundPool { amount } => json!({"op":"fund_pool","depositor":ica,"amount":cs(amount)}),
            AMsg::Stargate { type_url, value } => json!({"type_url":type_url,"value":hex(value)}),
            _ => json!({"unsupported":true}),
        }
    }
}

pub fn supported() -> BoxedStrategy<AMsg> {
    let w18 = prop_oneof![
        3 => pick(vec![0u128, 1, 10u128.pow(18), 5 * 10u128.pow(17), 333_333_333_333_333_333, 10u128.pow(17), u128::MAX, 999_999_999_999_999_999]),
        2 => 0..=10u128.pow(18),
        1 => any::<u128>(),
    ]
    .prop_map(dec_of_atomics)
    .boxed();
    prop_oneof![
        3 => (addrs(), coins(3)).prop_map(|(to, amount)| AMsg::BankSend { to, amount }),
        3 => (strings(), addrs(), coin(), opt((u64s(), u64s()).boxed()), opt(u64s()), opt(strings())).prop_map(|(channel, to, amount, block, ts, memo)| {
            // a timeout needs at least one of the two
            let ts = if block.is_none() { Some(ts.unwrap_or(1)) } else { ts };
            AMsg::Transfer { channel, to, amount, block, ts, memo }
        }),
        2 => (addrs(), bytes(), coins(3)).prop_map(|(contract, msg, funds)| AMsg::WasmExecute { contract, msg, funds }),
        2 => (opt(addrs()), u64s(), bytes(), coins(2), strings()).prop_map(|(admin, code_id, msg, funds, label)| AMsg::WasmInstantiate { admin, code_id, msg, funds, label }),
        2 => (opt(addrs()), u64s(), bytes(), coins(2), strings(), bytes()).prop_map(|(admin, code_id, msg, funds, label, salt)| AMsg::WasmInstantiate2 { admin, code_id, msg, funds, label, salt }),
        2 => (addrs(), u64s(), bytes()).prop_map(|(contract, code_id, msg)| AMsg::WasmMigrate { contract, code_id, msg }),
        2 => (addrs(), addrs()).prop_map(|(contract, admin)| AMsg::WasmUpdateAdmin { contract, admin }),
        1 => addrs().prop_map(|contract| AMsg::WasmClearAdmin { contract }),
        2 => (u64s(), 0u8..4).prop_map(|(id, option)| AMsg::Vote { id, option }),
        2 => (u64s(), prop_oneof![30 => proptest::collection::vec((0u8..4, w18.clone()), 0..5), 1 => lens(70).prop_flat_map(move |n| proptest::collection::vec((0u8..4, w18.clone()), n))]).prop_map(|(id, options)| AMsg::VoteWeighted { id, options }),
        2 => (addrs(), coin()).prop_map(|(validator, amount)| AMsg::Delegate { validator, amount }),
        2 => (addrs(), coin()).prop_map(|(validator, amount)| AMsg::Undelegate { validator, amount }),
        2 => (addrs(), addrs(), coin()).prop_map(|(src, dst, amount)| AMsg::Redelegate { src, dst, amount }),
        1 => addrs().prop_map(|validator| AMsg::WithdrawReward { validator }),
        1 => addrs().prop_map(|address| AMsg::SetWithdrawAddress { address }),
        1 => coins(3).prop_map(|amount| AMsg::FundPool { amount }),
        3 => (type_urls(), bytes()).prop_map(|(type_url, value)| AMsg::Stargate { type_url, value }),
    ]
    .boxed()
}
pub fn type_urls() -> BoxedStrategy<String> {
    prop_oneof![
        3 => pick(vec![
            "/cosmos.bank.v1beta1.MsgSend".to_string(), "/cosmos.gov.v1.MsgVote".into(), "/cosmos.staking.v1beta1.MsgDelegate".into(),
            "/ibc.applications.transfer.v1.MsgTransfer".into(), "/cosmwasm.wasm.v1.MsgStoreCode".into(), "/cosmos.authz.v1beta1.MsgExec".into(),
            "/cosmos.gov.v1beta1.MsgSubmitProposal".into(), "/ibc.core.channel.v1.MsgChannelOpenInit".into(), "/cosmos.group.v1.MsgVote".into(),
            "cosmos.bank.v1beta1.MsgSend".into(), "/".into(),
        ]),
        1 => "/[a-z]{1,8}\\.[a-z]{1,6}\\.v1(beta1)?\\.Msg[A-Z][a-z]{1,8}",
        1 => strings(),
    ]
    .boxed()
}
pub fn unsupported() -> BoxedStrategy<AMsg> {
    prop_oneof![
        2 => coins(2).prop_map(|amount| AMsg::BankBurn { amount }),
        1 => (strings(), bytes(), u64s()).prop_map(|(channel, data, ts)| AMsg::IbcSendPacket { channel, data, ts }),
        1 => strings().prop_map(|channel| AMsg::IbcCloseChannel { channel }),
        1 => Just(AMsg::Custom),
    ]
    .boxed()
}
/// cheap messages for histories
pub fn simple() -> BoxedStrategy<AMsg> {
    prop_oneof![
        4 => ("[a-z]{1,4}", 1u64..100).prop_map(|(to, n)| AMsg::BankSend { to, amount: vec![Coin { denom: "stake".into(), amount: n.to_string() }] }),
        2 => ("[a-z]{1,4}", 1u64..100).prop_map(|(v, n)| AMsg::Delegate { validator: v, amount: Coin { denom: "stake".into(), amount: n.to_string() } }),
        1 => (0u64..10, 0u8..4).prop_map(|(id, option)| AMsg::Vote { id, option }),
        1 => supported(),
    ]
    .boxed()
}
