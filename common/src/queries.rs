//! Abstract queries: cosmwasm JSON form and the request the host must see.
use crate::gen::*;
use crate::{b64, hex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AQuery {
    Balance { address: String, denom: String },
    AllBalances { address: String },
    DenomMetadata { denom: String },
    AllDenomMetadata { page: Option<(Option<Vec<u8>>, u32, bool)> },
    Supply { denom: String },
    Stargate { path: String, data: Vec<u8> },
    Smart { contract: String, msg: Vec<u8> },
    Raw { contract: String, key: Vec<u8> },
    ContractInfo { contract: String },
    Validator { address: String },
    AllValidators,
    Delegation { delegator: String, validator: String },
    AllDelegations { delegator: String },
    BondedDenom,
    // unsupported
    CodeInfo { code_id: u64 },
    IbcPortId,
    WithdrawAddress { delegator: String },
    Custom,
}

impl AQuery {
    pub fn supported(&self) -> bool {
        !matches!(self, AQuery::CodeInfo { .. } | AQuery::IbcPortId | AQuery::WithdrawAddress { .. } | AQuery::Custom)
    }
    pub fn needs_staking(&self) -> bool {
        matches!(
            self,
            AQuery::Validator { .. } | AQuery::AllValidators | AQuery::Delegation { .. } | AQuery::AllDelegations { .. } | AQuery::BondedDenom | AQuery::WithdrawAddress { .. }
        )
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AQuery::Balance { .. } => "balance",
            AQuery::AllBalances { .. } => "all_balances",
            AQuery::DenomMetadata { .. } => "denom_metadata",
            AQuery::AllDenomMetadata { .. } => "all_denom_metadata",
            AQuery::Supply { .. } => "supply",
            AQuery::Stargate { .. } => "stargate",
            AQuery::Smart { .. } => "smart",
            AQuery::Raw { .. } => "raw",
            AQuery::ContractInfo { .. } => "contract_info",
            AQuery::Validator { .. } => "validator",
            AQuery::AllValidators => "all_validators",
            AQuery::Delegation { .. } => "delegation",
            AQuery::AllDelegations { .. } => "all_delegations",
            AQuery::BondedDenom => "bonded_denom",
            _ => "unsupported",
        }
    }
    /// host path
    pub fn path(&self) -> String {
        match self {
            AQuery::Balance { .. } => "/cosmos.bank.v1beta1.Query/Balance",
            AQuery::AllBalances { .. } => "/cosmos.bank.v1beta1.Query/AllBalances",
            AQuery::DenomMetadata { .. } => "/cosmos.bank.v1beta1.Query/DenomMetadata",
            AQuery::AllDenomMetadata { .. } => "/cosmos.bank.v1beta1.Query/DenomsMetadata",
            AQuery::Supply { .. } => "/cosmos.bank.v1beta1.Query/SupplyOf",
            AQuery::Smart { .. } => "/cosmwasm.wasm.v1.Query/SmartContractState",
            AQuery::Raw { .. } => "/cosmwasm.wasm.v1.Query/RawContractState",
            AQuery::ContractInfo { .. } => "/cosmwasm.wasm.v1.Query/ContractInfo",
            AQuery::Validator { .. } => "/cosmos.staking.v1beta1.Query/Validator",
            AQuery::AllValidators => "/cosmos.staking.v1beta1.Query/Validators",
            AQuery::Delegation { .. } => "/cosmos.staking.v1beta1.Query/Delegation",
            AQuery::AllDelegations { .. } => "/cosmos.staking.v1beta1.Query/DelegatorDelegations",
            AQuery::BondedDenom => "/cosmos.staking.v1beta1.Query/Params",
            AQuery::Stargate { path, .. } => path,
            _ => "",
        }
        .to_string()
    }
    pub fn json(&self) -> Value {
        match self {
            AQuery::Balance { address, denom } => json!({"bank":{"balance":{"address":address,"denom":denom}}}),
            AQuery::AllBalances { address } => json!({"bank":{"all_balances":{"address":address}}}),
            AQuery::DenomMetadata { denom } => json!({"bank":{"denom_metadata":{"denom":denom}}}),
            AQuery::AllDenomMetadata { page } => {
                let p = page.as_ref().map(|(k, l, r)| json!({"key":k.as_ref().map(|k|b64(k)),"limit":l,"reverse":r}));
                json!({"bank":{"all_denom_metadata":{"pagination":p}}})
            }
            AQuery::Supply { denom } => json!({"bank":{"supply":{"denom":denom}}}),
            AQuery::Stargate { path, data } => json!({"stargate":{"path":path,"data":b64(data)}}),
            AQuery::Smart { contract, msg } => json!({"wasm":{"smart":{"contract_addr":contract,"msg":b64(msg)}}}),
            AQuery::Raw { contract, key } => json!({"wasm":{"raw":{"contract_addr":contract,"key":b64(key)}}}),
            AQuery::ContractInfo { contract } => json!({"wasm":{"contract_info":{"contract_addr":contract}}}),
            AQuery::Validator { address } => json!({"staking":{"validator":{"address":address}}}),
            AQuery::AllValidators => json!({"staking":{"all_validators":{}}}),
            AQuery::Delegation { delegator, validator } => json!({"staking":{"delegation":{"delegator":delegator,"validator":validator}}}),
            AQuery::AllDelegations { delegator } => json!({"staking":{"all_delegations":{"delegator":delegator}}}),
            AQuery::BondedDenom => json!({"staking":{"bonded_denom":{}}}),
            AQuery::CodeInfo { code_id } => json!({"wasm":{"code_info":{"code_id":code_id}}}),
            AQuery::IbcPortId => json!({"ibc":{"port_id":{}}}),
            AQuery::WithdrawAddress { delegator } => json!({"distribution":{"delegator_withdraw_address":{"delegator_address":delegator}}}),
            AQuery::Custom => json!({"custom":{}}),
        }
    }
    /// request the host must see, in the form of [`crate::host::read_request`]
    pub fn expected(&self) -> Value {
        let np = crate::host::empty_page;
        match self {
            AQuery::Balance { address, denom } => json!({"query":"balance","address":address,"denom":denom,"resolve_denom":0}),
            AQuery::AllBalances { address } => json!({"query":"all_balances","address":address,"page":np(),"resolve_denom":0}),
            AQuery::DenomMetadata { denom } => json!({"query":"denom_metadata","denom":denom}),
            AQuery::AllDenomMetadata { page } => {
                let p = match page {
                    None => np(),
                    Some((k, l, r)) => json!({"key":hex(k.as_deref().unwrap_or(&[])),"offset":0,"limit":l,"count_total":0,"reverse":u64::from(*r)}),
                };
                json!({"query":"all_denom_metadata","page":p})
            }
            AQuery::Supply { denom } => json!({"query":"supply","denom":denom}),
            AQuery::Stargate { path, data } => json!({"path":path,"data":hex(data)}),
            AQuery::Smart { contract, msg } => json!({"query":"smart","address":contract,"data":hex(msg)}),
            AQuery::Raw { contract, key } => json!({"query":"raw","address":contract,"data":hex(key)}),
            AQuery::ContractInfo { contract } => json!({"query":"contract_info","address":contract}),
            AQuery::Validator { address } => json!({"query":"validator","address":address}),
            AQuery::AllValidators => json!({"query":"all_validators","status":"","page":np()}),
            AQuery::Delegation { delegator, validator } => json!({"query":"delegation","delegator":delegator,"validator":validator}),
            AQuery::AllDelegations { delegator } => json!({"query":"all_delegations","delegator":delegator,"page":np()}),
            AQuery::BondedDenom => json!({"query":"bonded_denom"}),
            _ => json!({"unsupported":true}),
        }
    }
}

pub fn supported() -> BoxedStrategy<AQuery> {
    let page = (opt(bytes()), prop_oneof![Just(0u32), Just(1), Just(u32::MAX), any::<u32>(), 0u32..200], any::<bool>()).boxed();
    prop_oneof![
        2 => (addrs(), denoms()).prop_map(|(address, denom)| AQuery::Balance { address, denom }),
        1 => addrs().prop_map(|address| AQuery::AllBalances { address }),
        1 => denoms().prop_map(|denom| AQuery::DenomMetadata { denom }),
        2 => opt(page).prop_map(|page| AQuery::AllDenomMetadata { page }),
        1 => denoms().prop_map(|denom| AQuery::Supply { denom }),
        3 => (paths(), bytes()).prop_map(|(path, data)| AQuery::Stargate { path, data }),
        1 => (addrs(), bytes()).prop_map(|(contract, msg)| AQuery::Smart { contract, msg }),
        1 => (addrs(), bytes()).prop_map(|(contract, key)| AQuery::Raw { contract, key }),
        1 => addrs().prop_map(|contract| AQuery::ContractInfo { contract }),
        1 => addrs().prop_map(|address| AQuery::Validator { address }),
        1 => Just(AQuery::AllValidators),
        1 => (addrs(), addrs()).prop_map(|(delegator, validator)| AQuery::Delegation { delegator, validator }),
        1 => addrs().prop_map(|delegator| AQuery::AllDelegations { delegator }),
        1 => Just(AQuery::BondedDenom),
    ]
    .boxed()
}
pub fn paths() -> BoxedStrategy<String> {
    prop_oneof![
        4 => pick(vec![
            "/cosmos.bank.v1beta1.Query/Balance".to_string(), "/cosmos.bank.v1beta1.Query/AllBalances".into(), "/cosmos.bank.v1beta1.Query/Params".into(),
            "/cosmos.staking.v1beta1.Query/Validator".into(), "/cosmos.staking.v1beta1.Query/Params".into(), "/cosmwasm.wasm.v1.Query/RawContractState".into(),
            "/cosmwasm.wasm.v1.Query/SmartContractState".into(), "/cosmwasm.wasm.v1.Query/Code".into(), "/cosmos.gov.v1.Query/Proposal".into(), "/cosmos.auth.v1beta1.Query/Account".into(),
            "/ibc.core.client.v1.Query/ClientState".into(),
        ]),
        1 => strings(),
    ]
    .boxed()
}
pub fn unsupported() -> BoxedStrategy<AQuery> {
    prop_oneof![
        2 => u64s().prop_map(|code_id| AQuery::CodeInfo { code_id }),
        1 => Just(AQuery::IbcPortId),
        1 => addrs().prop_map(|delegator| AQuery::WithdrawAddress { delegator }),
        1 => Just(AQuery::Custom),
    ]
    .boxed()
}
/// cheap queries for histories; the kinds differ so that a mix-up of pending queries shows
pub fn simple() -> BoxedStrategy<AQuery> {
    prop_oneof![
        2 => Just(AQuery::Balance { address: "cosmos1a".into(), denom: "stake".into() }),
        1 => Just(AQuery::AllBalances { address: "cosmos1a".into() }),
        1 => Just(AQuery::Supply { denom: "stake".into() }),
        2 => ("/a/[a-z]", Just(vec![1u8])).prop_map(|(path, data)| AQuery::Stargate { path, data }),
        1 => Just(AQuery::Stargate { path: "/cosmos.bank.v1beta1.Query/Balance".into(), data: vec![10, 1, 97] }),
        1 => Just(AQuery::Raw { contract: "c".into(), key: vec![1] }),
        1 => Just(AQuery::BondedDenom),
        1 => supported(),
    ]
    .boxed()
}
