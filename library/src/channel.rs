//! C26: the channel, metadata, state and event building blocks as other contracts use them.
use cosmwasm_std::testing::{mock_dependencies, MockStorage};
use cosmwasm_std::{from_json, to_json_vec, Addr, IbcChannel, IbcEndpoint, IbcOrder, IbcPacket, Storage};
use cw_ica_controller::ibc::types::events::packet_ack;
use cw_ica_controller::ibc::types::metadata::{IcaMetadata, TxEncoding};
use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg;
use cw_ica_controller::types::msg::options::ChannelOpenInitOptions;
use cw_ica_controller::types::state::{ChannelState, ChannelStatus, ContractState, CHANNEL_OPEN_INIT_OPTIONS, CHANNEL_STATE};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcommon::gen::*;
use vcommon::meta::{self, Meta, Tri};
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};
use vcommon::{b64, unb64};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Open {
    contract: String,
    conn: String,
    port: Option<String>,
    host: String,
    /// proto3?
    enc: Option<bool>,
    /// ordered?
    order: Option<bool>,
}
fn order(o: bool) -> IbcOrder {
    if o {
        IbcOrder::Ordered
    } else {
        IbcOrder::Unordered
    }
}
fn enc(p: bool) -> TxEncoding {
    if p {
        TxEncoding::Protobuf
    } else {
        TxEncoding::Proto3Json
    }
}
fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err(format!("panic: {}", vcommon::runner::last_panic())))
}
fn conns() -> BoxedStrategy<String> {
    prop_oneof![3 => (0u32..4).prop_map(|n| format!("connection-{n}")), 1 => u64s().prop_map(|n| format!("connection-{n}")), 2 => strings()].boxed()
}
fn opens(_: Tier) -> BoxedStrategy<Open> {
    let port = prop_oneof![2 => Just(None), 2 => strings().prop_map(Some), 1 => Just(Some("icahost".to_string()))];
    (addrs(), conns(), port, conns(), any::<Option<bool>>(), any::<Option<bool>>()).prop_map(|(contract, conn, port, host, enc, order)| Open { contract, conn, port, host, enc, order }).boxed()
}
fn open(c: &Open, o: &mut Obs) -> Result<(), String> {
    let m = guard(|| Ok(new_ica_channel_open_init_cosmos_msg(c.contract.as_str(), c.conn.as_str(), c.port.clone(), c.host.as_str(), c.enc.map(enc), c.order.map(order))))?;
    let v: Value = serde_json::from_slice(&to_json_vec(&m).unwrap()).unwrap();
    let s = v.get("stargate").or_else(|| v.get("any")).ok_or(format!("not a raw protobuf message: {v}"))?;
    if s["type_url"] != "/ibc.core.channel.v1.MsgChannelOpenInit" {
        return Err(format!("message of type {}", s["type_url"]));
    }
    let mut got = vcommon::pb::decode(&unb64(s["value"].as_str().unwrap_or(""))?, vcommon::host::OPENINIT)?;
    let ver = got["channel"].as_object_mut().unwrap().remove("version").unwrap();
    let ver: Value = serde_json::from_str(ver.as_str().unwrap_or("")).map_err(|e| format!("version {ver} is not JSON: {e}"))?;
    let want = json!({"port":format!("wasm.{}", c.contract),"signer":c.contract,"channel":{"state":1,"ordering":if c.order.unwrap_or(true) { 2 } else { 1 },
        "counterparty":{"port":c.port.as_deref().unwrap_or("icahost"),"channel":""},"hops":[c.conn]}});
    if got != want {
        return Err(format!("open request {got}, expected {want}"));
    }
    let m = json!({"version":"ics27-1","controller_connection_id":c.conn,"host_connection_id":c.host,"address":"",
        "encoding":if c.enc.unwrap_or(true) { "proto3" } else { "proto3json" },"tx_type":"sdk_multi_msg"});
    if ver != m {
        return Err(format!("metadata {ver}, expected {m}"));
    }
    let opt = ChannelOpenInitOptions { connection_id: c.conn.clone(), counterparty_connection_id: c.host.clone(), counterparty_port_id: c.port.clone(), channel_ordering: c.order.map(order) };
    if opt.counterparty_port_id() != c.port.as_deref().unwrap_or("icahost") {
        return Err(format!("options {opt:?} name port {}", opt.counterparty_port_id()));
    }
    o.nontrivial = c.port.is_some() || c.enc.is_some() || c.order.is_some();
    o.class(if o.nontrivial { "chosen" } else { "defaults" });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Md {
    meta: Meta,
    conn: String,
    /// what is stored: a previous channel (its version) and remembered options (connection, host connection)
    previous: Option<(Meta, String, bool)>,
    options: Option<(String, String)>,
    /// which fields are random strings rather than near-valid ones
    wild: Option<(String, String, String, String, bool)>,
}
fn mds(_: Tier) -> BoxedStrategy<Md> {
    let conn = || prop_oneof![4 => Just("connection-0".to_string()), 2 => conns()];
    let wild = prop_oneof![4 => Just(None), 1 => (strings(), strings(), strings(), strings(), any::<bool>()).prop_map(Some)];
    let previous = prop_oneof![2 => Just(None), 3 => (meta::any_meta(), conn(), any::<bool>()).prop_map(Some)];
    (meta::any_meta(), conn(), previous, opt((conn(), conn()).boxed()), wild).prop_map(|(meta, conn, previous, options, wild)| Md { meta, conn, previous, options, wild }).boxed()
}
fn channel(conn: &str, version: &str, ordered: bool) -> IbcChannel {
    let e = |p: &str, c: &str| IbcEndpoint { port_id: p.into(), channel_id: c.into() };
    IbcChannel::new(e("wasm.me", "channel-0"), e("icahost", "channel-1"), order(ordered), version, conn)
}
fn fields(m: &IcaMetadata) -> Value {
    let e = match m.encoding {
        TxEncoding::Protobuf => "proto3",
        TxEncoding::Proto3Json => "proto3json",
    };
    json!({"version":m.version,"controller_connection_id":m.controller_connection_id,"host_connection_id":m.host_connection_id,"address":m.address,"encoding":e,"tx_type":m.tx_type})
}
fn md(c: &Md, o: &mut Obs) -> Result<(), String> {
    let ch = channel(&c.conn, "", true);
    // texts that are not metadata are not read as such
    let text = c.meta.render(&c.conn);
    let v = c.meta.value(&c.conn);
    let encoding = v["encoding"].as_str().unwrap().to_string();
    let known = matches!(encoding.as_str(), "proto3" | "proto3json");
    let read = guard(|| from_json::<IcaMetadata>(text.as_bytes()).map_err(|e| e.to_string()));
    if c.meta.is_json() && known {
        let m = read.map_err(|e| format!("metadata {text} is not read: {e}"))?;
        if fields(&m) != v {
            return Err(format!("metadata {text} is read as {m:?}"));
        }
        // writing and reading gives the same
        let t = m.to_string();
        let w: Value = serde_json::from_str(&t).map_err(|e| format!("metadata {m:?} is written as {t}: {e}"))?;
        if w != v {
            return Err(format!("metadata {m:?} is written as {t}"));
        }
        let back: IcaMetadata = from_json(t.as_bytes()).map_err(|e| format!("written metadata {t} is not read back: {e}"))?;
        if back != m {
            return Err(format!("metadata {m:?} becomes {back:?} when written and read"));
        }
        let r = m.validate(&ch).map_err(|e| e.to_string());
        match (c.meta.judge(&c.conn, false), r) {
            (Tri::Yes, Err(e)) => return Err(format!("valid metadata {m:?} on {} is refused: {e}", c.conn)),
            (Tri::No, Ok(())) => return Err(format!("invalid metadata {m:?} on {} is accepted", c.conn)),
            (Tri::Yes, _) => o.class("valid"),
            _ => o.class("invalid"),
        }
        o.nontrivial = true;
    } else if read.is_ok() && c.meta.judge(&c.conn, false) != Tri::Any && !matches!(c.meta.shape, meta::Shape::Extra | meta::Shape::Array) {
        return Err(format!("{text:?} is read as metadata {read:?}"));
    }
    if let Some((version, host, addr, tx, p)) = &c.wild {
        let m = IcaMetadata::new(version.clone(), c.conn.clone(), host.clone(), addr.clone(), enc(*p), tx.clone());
        let w = json!({"version":version,"controller_connection_id":c.conn,"host_connection_id":host,"address":addr,"encoding":if *p { "proto3" } else { "proto3json" },"tx_type":tx});
        let t = m.to_string();
        if serde_json::from_str::<Value>(&t).ok().as_ref() != Some(&w) {
            return Err(format!("metadata {m:?} is written as {t}"));
        }
        if from_json::<IcaMetadata>(t.as_bytes()).ok().as_ref() != Some(&m) {
            return Err(format!("metadata {m:?} written as {t} is not read back"));
        }
    }
    // the fallback for an empty version
    let mut deps = mock_dependencies();
    if let Some((m, conn, ordered)) = &c.previous {
        let s = ChannelState::new_open_channel(channel(conn, &m.render(conn), *ordered));
        CHANNEL_STATE.save(&mut deps.storage, &s).map_err(|e| e.to_string())?;
    }
    if let Some((conn, host)) = &c.options {
        let s = ChannelOpenInitOptions { connection_id: conn.clone(), counterparty_connection_id: host.clone(), counterparty_port_id: None, channel_ordering: None };
        CHANNEL_OPEN_INIT_OPTIONS.save(&mut deps.storage, &s).map_err(|e| e.to_string())?;
    }
    let before = dump(&deps.storage);
    let got = guard(|| IcaMetadata::from_channel(deps.as_ref(), &ch).map_err(|e| e.to_string()));
    if dump(&deps.storage) != before {
        return Err("reading the fallback metadata changes the storage".into());
    }
    let options = match &c.options {
        Some((conn, host)) if *conn == c.conn => Some(json!({"version":"ics27-1","controller_connection_id":conn,"host_connection_id":host,"address":"","encoding":"proto3","tx_type":"sdk_multi_msg"})),
        _ => None,
    };
    match &c.previous {
        Some((m, conn, _)) if m.is_json() && matches!(m.value(conn)["encoding"].as_str(), Some("proto3" | "proto3json")) => {
            let prev = m.value(conn);
            if prev["controller_connection_id"] == c.conn {
                o.class("fallback_previous");
                let g = got.map_err(|e| format!("the previous channel's metadata is not used: {e}"))?;
                if fields(&g) != prev {
                    return Err(format!("fallback metadata {g:?}, the previous channel had {prev}"));
                }
            } else if let Ok(g) = got {
                // for another connection: previous, remembered or none
                if fields(&g) != prev && Some(fields(&g)) != options {
                    return Err(format!("fallback metadata {g:?} comes from neither the previous channel nor the options"));
                }
            }
        }
        Some((m, ..)) if matches!(m.shape, meta::Shape::Extra | meta::Shape::Array) => {}
        _ => match (got, options) {
            (Ok(g), Some(w)) => {
                o.class("fallback_options");
                if fields(&g) != w {
                    return Err(format!("fallback metadata {g:?}, the options ask for {w}"));
                }
            }
            (Ok(g), None) => return Err(format!("fallback metadata {g:?} without usable options")),
            (Err(e), Some(_)) => return Err(format!("the remembered options are not used: {e}")),
            (Err(_), None) => o.class("fallback_none"),
        },
    }
    Ok(())
}
fn dump(s: &MockStorage) -> Vec<(Vec<u8>, Vec<u8>)> {
    s.range(None, None, cosmwasm_std::Order::Ascending).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ev {
    seq: u64,
    src: (String, String),
    dst: (String, String),
    data: Vec<u8>,
    result: Vec<u8>,
    error: String,
    ordered: bool,
    status: u8,
    callback: Option<String>,
    accounts: Vec<Option<(String, String, bool)>>,
}
fn evs(_: Tier) -> BoxedStrategy<Ev> {
    let ep = || (strings(), strings());
    let accounts = list(opt((strings(), strings(), any::<bool>()).boxed()), 6);
    (u64s(), ep(), ep(), bytes(), bytes(), strings(), any::<bool>(), 0u8..7, opt(addrs()), accounts)
        .prop_map(|(seq, src, dst, data, result, error, ordered, status, callback, accounts)| Ev { seq, src, dst, data, result, error, ordered, status, callback, accounts })
        .boxed()
}
fn ev(c: &Ev, o: &mut Obs) -> Result<(), String> {
    let ep = |e: &(String, String)| json!({"port_id":e.0,"channel_id":e.1});
    let p: IbcPacket =
        from_json(json!({"data":b64(&c.data),"src":ep(&c.src),"dest":ep(&c.dst),"sequence":c.seq,"timeout":{"block":null,"timestamp":"1"}}).to_string()).map_err(|e| e.to_string())?;
    let id = [("packet_sequence", c.seq.to_string()), ("packet_src_port", c.src.0.clone()), ("packet_src_channel", c.src.1.clone())];
    for (e, last) in [
        (guard(|| Ok(packet_ack::success(&p, &c.result.clone().into())))?, ("packet_ack_base64", b64(&c.result))),
        (guard(|| Ok(packet_ack::error(&p, &c.error)))?, ("error", c.error.clone())),
    ] {
        let mut got: Vec<(String, String)> = e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        let mut want: Vec<(String, String)> = id.iter().cloned().chain([last]).map(|(k, v)| (k.to_string(), v)).collect();
        got.sort();
        want.sort();
        if e.ty != "acknowledge_packet" || got != want {
            return Err(format!("event {e:?}, expected {want:?}"));
        }
    }
    // channel state
    let ch = channel("connection-0", "v", c.ordered);
    let mut s = ChannelState::new_open_channel(ch.clone());
    if s.channel != ch || !s.is_open() || s.is_ordered() != c.ordered {
        return Err(format!("new open channel {s:?}: open {}, ordered {}", s.is_open(), s.is_ordered()));
    }
    s.close();
    if s.channel != ch || s.is_open() || s.is_ordered() != c.ordered || s.channel_status != ChannelStatus::Closed {
        return Err(format!("closed channel {s:?}: open {}, ordered {}", s.is_open(), s.is_ordered()));
    }
    let (st, name) = [
        (ChannelStatus::Uninitialized, "STATE_UNINITIALIZED_UNSPECIFIED"),
        (ChannelStatus::Init, "STATE_INIT"),
        (ChannelStatus::TryOpen, "STATE_TRYOPEN"),
        (ChannelStatus::Open, "STATE_OPEN"),
        (ChannelStatus::Closed, "STATE_CLOSED"),
        (ChannelStatus::Flushing, "STATE_FLUSHING"),
        (ChannelStatus::FlushComplete, "STATE_FLUSHCOMPLETE"),
    ][c.status as usize % 7]
        .clone();
    s.channel_status = st.clone();
    if s.is_open() != (name == "STATE_OPEN") || st.to_string() != name {
        return Err(format!("status {st:?}: open {}, shown as {st}", s.is_open()));
    }
    let j: Value = serde_json::from_slice(&to_json_vec(&s).unwrap()).unwrap();
    if j["channel_status"] != name || from_json::<ChannelState>(j.to_string()).ok().as_ref() != Some(&s) {
        return Err(format!("channel state {s:?} is written as {j}"));
    }
    // account record
    let cb = c.callback.clone().map(Addr::unchecked);
    let mut s = ContractState::new(cb.clone());
    let mut now: Option<(String, String, bool)> = None;
    for a in [None].iter().chain(&c.accounts) {
        match a {
            Some((addr, chan, p)) => s.set_ica_info(addr.as_str(), chan.as_str(), enc(*p)),
            None => s.delete_ica_info(),
        }
        now.clone_from(a);
        let got = s.get_ica_info().ok().map(|i| (i.ica_address, i.channel_id, i.encoding == TxEncoding::Protobuf));
        if got != now || s.callback_address != cb {
            return Err(format!("account record {s:?} after setting {now:?}"));
        }
        let t = to_json_vec(&s).unwrap();
        if from_json::<ContractState>(&t).ok().as_ref() != Some(&s) {
            return Err(format!("state {s:?} is not read back"));
        }
    }
    o.nontrivial = true;
    o.class(name);
    Ok(())
}

pub fn property() -> Property {
    macro_rules! f {
        ($t:ty, $f:ident) => {{
            fn g(c: &$t) -> Obs {
                let mut o = Obs::default();
                if let Err(e) = $f(c, &mut o) {
                    o.fail(e);
                }
                o
            }
            g
        }};
    }
    let suites: Vec<Box<dyn SuiteDyn>> = vec![
        Box::new(Suite { name: "open-requests", quick: 100_000, thorough: 3_000_000, make: opens, check: f!(Open, open) }),
        Box::new(Suite { name: "metadata", quick: 200_000, thorough: 6_000_000, make: mds, check: f!(Md, md) }),
        Box::new(Suite { name: "events-and-state", quick: 60_000, thorough: 1_500_000, make: evs, check: f!(Ev, ev) }),
    ];
    Property {
        id: "C26",
        rule: "open requests with a choice made; metadata that is read, written, read back and judged; events and state records",
        suites,
        assumptions: vec!["the public functions and types of the library are called as documented; whether letters outside ASCII are alphanumeric, additional metadata fields and previous metadata of another connection are left open"],
    }
}
