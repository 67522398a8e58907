//! C21: packet building and acknowledgement reading in a library build.
use crate::req;
use cosmwasm_std::{from_json, to_json_vec, Env};
use cw_ica_controller::ibc::types::metadata::TxEncoding;
use cw_ica_controller::ibc::types::packet::{acknowledgement::Data, IcaPacketData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcommon::gen::*;
use vcommon::host;
use vcommon::msgs::AMsg;
use vcommon::pb::W;
use vcommon::queries::AQuery;
use vcommon::resp::Seed;
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};
use vcommon::{b64, unb64};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pkt {
    msgs: Vec<AMsg>,
    queries: Vec<AQuery>,
    memo: Option<String>,
    timeout: Option<u64>,
    ica: String,
    channel: u64,
    time: u64,
}
fn pkts(_: Tier) -> BoxedStrategy<Pkt> {
    let m: BoxedStrategy<AMsg> = prop_oneof![80 => req::msgs(), 1 => vcommon::msgs::unsupported()].boxed();
    let q: BoxedStrategy<Vec<AQuery>> = if req::QUERY {
        let bad = vcommon::queries::unsupported().prop_filter_map("staking", |m| (req::STAKING || !m.needs_staking()).then_some(m));
        let q: BoxedStrategy<AQuery> = prop_oneof![80 => req::queries(), 1 => bad].boxed();
        prop_oneof![1 => Just(vec![]), 2 => list(q, 100)].boxed()
    } else {
        Just(vec![]).boxed()
    };
    let time = prop_oneof![6 => (1_600_000_000u64..1_900_000_000).prop_map(|s| s * 1_000_000_000 + 3), 1 => u64s()];
    let timeout = prop_oneof![2 => Just(None), 3 => (0u64..1_000_000).prop_map(Some), 1 => u64s().prop_map(Some)];
    (list(m, 100), q, opt(strings()), timeout, addrs(), u64s(), time)
        .prop_map(|(msgs, queries, memo, timeout, ica, channel, time)| Pkt { msgs, queries, memo, timeout, ica, channel, time })
        .boxed()
}

/// Err: refused (error or panic)
fn build(c: &Pkt, e: &TxEncoding) -> Result<IcaPacketData, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let m = c.msgs.iter().map(req::cosmos).collect();
        #[cfg(feature = "query")]
        let r = IcaPacketData::from_cosmos_msgs(m, c.queries.iter().map(req::query).collect(), e, c.memo.clone(), &c.ica);
        #[cfg(not(feature = "query"))]
        let r = IcaPacketData::from_cosmos_msgs(m, e, c.memo.clone(), &c.ica);
        r.map_err(|e| e.to_string())
    }));
    r.unwrap_or_else(|_| Err(format!("panic: {}", vcommon::runner::last_panic())))
}
fn env(time: u64) -> Env {
    from_json(json!({"block":{"height":1,"time":time.to_string(),"chain_id":"c"},"transaction":{"index":0},"contract":{"address":"me"}}).to_string()).unwrap()
}
fn pkt(c: &Pkt, o: &mut Obs) -> Result<(), String> {
    if build(c, &TxEncoding::Proto3Json).is_ok() {
        return Err("a packet is built for the unsupported proto3json encoding".into());
    }
    let ok = c.msgs.iter().all(AMsg::supported) && c.queries.iter().all(AQuery::supported);
    let r = build(c, &TxEncoding::Protobuf);
    if !ok {
        o.class("unsupported");
        return match r {
            Err(_) => Ok(()),
            Ok(p) => Err(format!("a packet is built from unsupported messages: {p:?}")),
        };
    }
    let p = r.map_err(|e| format!("no packet is built: {e}"))?;
    let at = c.timeout.unwrap_or(600).checked_mul(1_000_000_000).and_then(|t| t.checked_add(c.time));
    let id = format!("channel-{}", c.channel);
    let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.to_ibc_msg(&env(c.time), id.clone(), c.timeout).map_err(|e| e.to_string())));
    let (m, at) = match (m, at) {
        (Ok(Ok(m)), Some(t)) => (m, t),
        (Ok(Ok(m)), None) => return Err(format!("a timeout past the end of time is accepted: {m:?}")),
        (_, None) => {
            o.class("impossible_timeout");
            return Ok(());
        }
        (Ok(Err(e)), _) => return Err(format!("no message is built: {e}")),
        (Err(_), _) => return Err(format!("panic: {}", vcommon::runner::last_panic())),
    };
    let v: Value = serde_json::from_slice(&to_json_vec(&m).unwrap()).unwrap();
    let s = &v["send_packet"];
    if s["channel_id"] != id || s["timeout"]["timestamp"] != at.to_string() || !s["timeout"]["block"].is_null() {
        return Err(format!("packet on {} with timeout {}, expected {id} and {at}", s["channel_id"], s["timeout"]));
    }
    let raw = unb64(s["data"].as_str().ok_or("no data")?)?;
    let h = host::read_packet(&raw)?;
    if !h.typ_ok {
        return Err("not an execute-transaction packet".into());
    }
    if h.memo != c.memo.clone().unwrap_or_default() {
        return Err(format!("memo {:?}, asked for {:?}", h.memo, c.memo));
    }
    host::check_tx(&h.data, &c.ica, &c.msgs, &c.queries).map_err(|e| e.1)?;
    o.nontrivial = !c.msgs.is_empty() || !c.queries.is_empty();
    o.class(if c.queries.is_empty() { "messages" } else { "queries" });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Answer {
    /// responses of other messages before and after the query message's
    before: Vec<Vec<u8>>,
    after: Vec<Vec<u8>>,
    height: u64,
    queries: Vec<AQuery>,
    seeds: Vec<Seed>,
    error: Option<String>,
}
fn acks(_: Tier) -> BoxedStrategy<Answer> {
    let other = || list(bytes(), 20);
    (other(), other(), u64s(), list(req::queries(), 20), list(vcommon::resp::seeds(), 20), prop_oneof![5 => Just(None), 1 => strings().prop_map(Some)])
        .prop_map(|(before, after, height, queries, seeds, error)| Answer { before, after, height, queries, seeds, error })
        .boxed()
}
fn ack(c: &Answer, o: &mut Obs) -> Result<(), String> {
    if let Some(e) = &c.error {
        o.class("error");
        let d: Data = from_json(json!({"error":e}).to_string()).map_err(|e| format!("the acknowledgement does not decode: {e}"))?;
        if d.to_tx_msg_data().is_ok() {
            return Err("an error acknowledgement has a result".into());
        }
        #[cfg(feature = "query")]
        if (0..3).any(|i| d.decode_module_query_safe_resp(i).is_ok()) {
            return Err("an error acknowledgement has an answer".into());
        }
        return Ok(());
    }
    let plain = Seed::plain(3);
    let answers: Vec<Vec<u8>> = c.queries.iter().enumerate().map(|(i, q)| vcommon::resp::build(q, c.seeds.get(i).unwrap_or(&plain)).0).collect();
    let mut w = W::new().uint(1, c.height);
    for a in &answers {
        w = w.len(2, a);
    }
    let any = |tx: W, b: &[u8]| tx.msg(2, W::new().str(1, "/x.Response").bytes(2, b));
    let mut tx = W::new();
    let all: Vec<&[u8]> = c.before.iter().map(Vec::as_slice).chain([w.0.as_slice()]).chain(c.after.iter().map(Vec::as_slice)).collect();
    for b in &all {
        tx = any(tx, b);
    }
    let d: Data = from_json(json!({"result":b64(&tx.0)}).to_string()).map_err(|e| format!("the acknowledgement does not decode: {e}"))?;
    let t = d.to_tx_msg_data().map_err(|e| format!("the result does not decode: {e}"))?;
    let got: Vec<&[u8]> = t.msg_responses.iter().map(|a| a.value.as_slice()).collect();
    if got != all {
        return Err(format!("message responses {got:?}, the host sent {all:?}"));
    }
    o.class("result");
    o.nontrivial = true;
    #[cfg(feature = "query")]
    {
        let r = d.decode_module_query_safe_resp(c.before.len()).map_err(|e| format!("the answer is not decoded: {e}"))?;
        if r.height != c.height || r.responses != answers {
            return Err(format!("answer {r:?}, the host sent {} {answers:?}", c.height));
        }
        if d.decode_module_query_safe_resp(all.len()).is_ok() {
            return Err("an answer is found past the last message response".into());
        }
    }
    Ok(())
}

pub fn property() -> Property {
    fn p(c: &Pkt) -> Obs {
        let mut o = Obs::default();
        if let Err(e) = pkt(c, &mut o) {
            o.fail(e);
        }
        o
    }
    fn a(c: &Answer) -> Obs {
        let mut o = Obs::default();
        if let Err(e) = ack(c, &mut o) {
            o.fail(e);
        }
        o
    }
    let suites: Vec<Box<dyn SuiteDyn>> = vec![
        Box::new(Suite { name: "packets", quick: 80_000, thorough: 2_000_000, make: pkts, check: p }),
        Box::new(Suite { name: "acknowledgements", quick: 40_000, thorough: 1_000_000, make: acks, check: a }),
    ];
    Property {
        id: "C21",
        rule: "packets with messages or queries read back by the independent host decoder, per feature combination; result acknowledgements whose answers were read back",
        suites,
        assumptions: vec!["the host reads packets by the Cosmos SDK, ibc-go and wasmd protobuf definitions (field tables in common/src/host.rs), the same oracle that decides C09 and C10 for the deployed contract"],
    }
}
