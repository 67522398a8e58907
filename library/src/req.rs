//! Requests a user of the library builds, typed, with their documented JSON form.
use cosmwasm_std::{from_json, to_json_vec, CosmosMsg};
use cw_ica_controller::types::msg::{options::ChannelOpenInitOptions, ExecuteMsg, InstantiateMsg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcommon::gen::*;
use vcommon::msgs::AMsg;
#[allow(unused_imports)]
use vcommon::queries::AQuery;

pub const STAKING: bool = cfg!(feature = "staking");
pub const QUERY: bool = cfg!(feature = "query");

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub conn: String,
    pub host: String,
    pub port: Option<String>,
    pub order: Option<bool>,
}
impl Opts {
    pub fn typed(&self) -> ChannelOpenInitOptions {
        ChannelOpenInitOptions {
            connection_id: self.conn.clone(),
            counterparty_connection_id: self.host.clone(),
            counterparty_port_id: self.port.clone(),
            channel_ordering: self.order.map(|o| if o { cosmwasm_std::IbcOrder::Ordered } else { cosmwasm_std::IbcOrder::Unordered }),
        }
    }
    pub fn json(&self) -> Value {
        json!({"connection_id":self.conn,"counterparty_connection_id":self.host,"counterparty_port_id":self.port,
            "channel_ordering":self.order.map(|o| if o { "ORDER_ORDERED" } else { "ORDER_UNORDERED" })})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    pub owner: Option<String>,
    pub opts: Opts,
    pub cb: Option<String>,
}
impl Inst {
    pub fn typed(&self) -> InstantiateMsg {
        InstantiateMsg { owner: self.owner.clone(), channel_open_init_options: self.opts.typed(), send_callbacks_to: self.cb.clone() }
    }
    pub fn json(&self) -> Value {
        json!({"owner":self.owner,"channel_open_init_options":self.opts.json(),"send_callbacks_to":self.cb})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Exp {
    Never,
    Height(u64),
    Time(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    Create(Option<Opts>),
    Close,
    Send { msgs: Vec<AMsg>, queries: Vec<AQuery>, memo: Option<String>, timeout: Option<u64> },
    SetCb(Option<String>),
    Transfer(String, Option<Exp>),
    Accept,
    Renounce,
}

pub fn cosmos(m: &AMsg) -> CosmosMsg {
    from_json(m.json().to_string()).expect("cosmwasm message")
}
#[cfg(feature = "query")]
pub fn query(q: &AQuery) -> cosmwasm_std::QueryRequest<cosmwasm_std::Empty> {
    from_json(q.json().to_string()).expect("cosmwasm query")
}
pub fn val<T: Serialize>(t: &T) -> Value {
    serde_json::from_slice(&to_json_vec(t).expect("serialises")).expect("JSON")
}

impl Req {
    pub fn typed(&self) -> ExecuteMsg {
        match self {
            Req::Create(o) => ExecuteMsg::CreateChannel { channel_open_init_options: o.as_ref().map(Opts::typed) },
            Req::Close => ExecuteMsg::CloseChannel {},
            #[allow(unused_variables)]
            Req::Send { msgs, queries, memo, timeout } => ExecuteMsg::SendCosmosMsgs {
                messages: msgs.iter().map(cosmos).collect(),
                #[cfg(feature = "query")]
                queries: queries.iter().map(query).collect(),
                packet_memo: memo.clone(),
                timeout_seconds: *timeout,
            },
            Req::SetCb(a) => ExecuteMsg::UpdateCallbackAddress { callback_address: a.clone() },
            x => ExecuteMsg::UpdateOwnership(from_json(x.json()["update_ownership"].to_string()).expect("ownership action")),
        }
    }
    /// the documented JSON form
    pub fn json(&self) -> Value {
        match self {
            Req::Create(o) => json!({"create_channel":{"channel_open_init_options":o.as_ref().map(Opts::json)}}),
            Req::Close => json!({"close_channel":{}}),
            Req::Send { msgs, queries, memo, timeout } => {
                let m: Vec<Value> = msgs.iter().map(|m| val(&cosmos(m))).collect();
                let q: Vec<Value> = queries.iter().map(AQuery::json).collect();
                json!({"send_cosmos_msgs":{"messages":m,"queries":q,"packet_memo":memo,"timeout_seconds":timeout}})
            }
            Req::SetCb(a) => json!({"update_callback_address":{"callback_address":a}}),
            Req::Transfer(to, e) => {
                let e = e.as_ref().map(|e| match e {
                    Exp::Never => json!({"never":{}}),
                    Exp::Height(h) => json!({"at_height":h}),
                    Exp::Time(t) => json!({"at_time":t.to_string()}),
                });
                json!({"update_ownership":{"transfer_ownership":{"new_owner":to,"expiry":e}}})
            }
            Req::Accept => json!({"update_ownership":"accept_ownership"}),
            Req::Renounce => json!({"update_ownership":"renounce_ownership"}),
        }
    }
}
/// absent and null optional fields, and an absent and empty query list, mean the same
pub fn normal(v: &Value) -> Value {
    match v {
        Value::Object(m) => m.iter().filter(|(k, v)| !v.is_null() && !(k.as_str() == "queries" && **v == json!([]))).map(|(k, v)| (k.clone(), normal(v))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(a) => a.iter().map(normal).collect(),
        x => x.clone(),
    }
}

pub fn opts() -> BoxedStrategy<Opts> {
    let order = prop_oneof![Just(None), any::<bool>().prop_map(Some)];
    let conn = || prop_oneof![2 => (0u32..1000).prop_map(|n| format!("connection-{n}")), 1 => strings()];
    (conn(), conn(), prop_oneof![2 => Just(None), 2 => Just(Some("icahost".to_string())), 1 => strings().prop_map(Some)], order)
        .prop_map(|(conn, host, port, order)| Opts { conn, host, port, order })
        .boxed()
}
pub fn inst() -> BoxedStrategy<Inst> {
    (opt(addrs()), opts(), opt(addrs())).prop_map(|(owner, opts, cb)| Inst { owner, opts, cb }).boxed()
}
/// messages representable in this build
pub fn msgs() -> BoxedStrategy<AMsg> {
    vcommon::msgs::supported().prop_filter_map("staking", |m| (STAKING || !m.needs_staking()).then_some(m)).boxed()
}
pub fn queries() -> BoxedStrategy<AQuery> {
    vcommon::queries::supported().prop_filter_map("staking", |m| (STAKING || !m.needs_staking()).then_some(m)).boxed()
}
pub fn query_lists(max: usize) -> BoxedStrategy<Vec<AQuery>> {
    if QUERY {
        prop_oneof![1 => Just(vec![]), 2 => list(queries(), max)].boxed()
    } else {
        Just(vec![]).boxed()
    }
}
pub fn send(max: usize) -> BoxedStrategy<Req> {
    (list(msgs(), max), query_lists(max), opt(strings()), opt(u64s())).prop_map(|(msgs, queries, memo, timeout)| Req::Send { msgs, queries, memo, timeout }).boxed()
}
pub fn reqs() -> BoxedStrategy<Req> {
    let e = prop_oneof![Just(None), Just(Some(Exp::Never)), u64s().prop_map(|h| Some(Exp::Height(h))), u64s().prop_map(|h| Some(Exp::Time(h)))];
    prop_oneof![
        2 => opt(opts()).prop_map(Req::Create),
        1 => Just(Req::Close),
        6 => send(20),
        2 => opt(addrs()).prop_map(Req::SetCb),
        2 => (addrs(), e).prop_map(|(a, e)| Req::Transfer(a, e)),
        1 => Just(Req::Accept),
        1 => Just(Req::Renounce),
    ]
    .boxed()
}
