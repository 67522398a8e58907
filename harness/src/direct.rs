//! Suites below the level of whole histories.
use crate::driver::{self as d, Out, Store};
use crate::forms;
use crate::hist::{self, Hist};
use crate::meta::{self, Meta, Shape, Tri};
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcommon::gen::*;
use vcommon::runner::{Obs, Tier};

fn finish(id: &str, r: Result<(), Viol>, mut o: Obs) -> Obs {
    if let Err(v) = r {
        if v.tags.contains(&id) {
            o.fail(format!("{} {:?}", v.text, v.tags));
        } else {
            o.class(format!("stopped_by_{}", v.tags.join("_")));
        }
    }
    o
}
fn bad<T>(tags: &[&'static str], text: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { tags: tags.to_vec(), text: text.into() })
}

// ---------------------------------------------------------------------------------------------------------------
// one permitted opening, seen at the entry points

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hs {
    pub init: Init,
    /// a handshake completed before, and whether that channel was closed since
    pub prev: Option<(Meta, bool)>,
    /// None: the permission comes from instantiation (only without `prev`)
    pub create: Option<Option<Opts>>,
    /// connection of the channel being opened; None: that of the options
    pub conn: Option<String>,
    pub port: String,
    pub ordered: bool,
    /// None: empty version
    pub version: Option<Meta>,
    pub ack: Meta,
    pub ack_cp: u8,
}
pub fn hs(_: Tier) -> BoxedStrategy<Hs> {
    let metas = || prop_oneof![2 => meta::good(), 3 => meta::any_meta(), 1 => meta::good().prop_map(|m| Meta { addr: String::new(), ..m })].boxed();
    (
        hist::init().prop_map(|mut i| {
            i.connect = false;
            i.opts.port = None;
            if !known_conn(&i.opts.conn) {
                i.opts.conn = "connection-0".into();
            }
            i.owner = if let Arg::Bad(k) = i.owner { Arg::Actor(k) } else { i.owner };
            i.cb = if let Arg::Bad(k) = i.cb { Arg::Actor(k) } else { i.cb };
            i
        }),
        opt((meta::good(), proptest::bool::weighted(0.85)).boxed()),
        prop_oneof![2 => Just(None), 1 => Just(Some(None)), 2 => hist::opts().prop_map(|o| Some(Some(o)))],
        prop_oneof![3 => Just(None), 1 => hist::conns().prop_map(Some), 1 => strings().prop_map(Some)],
        prop_oneof![8 => Just("icahost".to_string()), 2 => pick(vec!["icahost ".to_string(), "ICAHOST".into(), "icahos".into(), "".into(), "icahost1".into(), "wasm.x".into(), "transfer".into(), "icacontroller-x".into()]), 1 => strings()],
        any::<bool>(),
        prop_oneof![2 => Just(None), 5 => metas().prop_map(Some)],
        prop_oneof![1 => meta::good(), 2 => meta::any_meta()],
        any::<u8>(),
    )
        .prop_map(|(init, prev, create, conn, port, ordered, version, ack, ack_cp)| {
            let create = if prev.is_some() && create.is_none() { Some(None) } else { create };
            let version = version.filter(|m| m.shape != Shape::Empty);
            Hs { init, prev, create, conn, port, ordered, version, ack, ack_cp }
        })
        .boxed()
}
fn parse(t: &str) -> Option<Value> {
    serde_json::from_str(t).ok()
}
pub fn hs_check(id: &'static str, c: &Hs) -> Obs {
    let mut o = Obs::default();
    let r = hs_run(c, &mut o);
    finish(id, r, o)
}
fn hs_run(c: &Hs, o: &mut Obs) -> Result<(), Viol> {
    let mut st: Store;
    let mut b = d::Blk { height: c.init.height, time: c.init.time, contract: d::contract_addr() };
    let owner: String;
    let mut opts = c.init.opts.clone();
    let mut prev_meta: Option<Value> = None;
    let mut open = false;
    let mut next = c.init.chan0;
    if let Some((m, closed)) = &c.prev {
        let Some(mut w) = World::new(&c.init)? else { return Ok(()) };
        w.step(&Op::OpenAck { sel: 255, meta: m.clone(), cb: CbMode::Ok, relay_port: 0 })?;
        if w.m.tracked.is_none() {
            return Ok(());
        }
        if *closed {
            w.step(&Op::CloseConfirm { sel: 0 })?;
        }
        open = w.m.tracked.as_ref().is_some_and(|t| t.1);
        prev_meta = w.m.tracked.as_ref().and_then(|t| parse(t.0["version"].as_str()?));
        owner = w.m.owner.clone();
        st = w.st;
        b = w.b;
        next = w.next_chan;
        o.class(if open { "tracked_channel_open" } else { "reopening" });
    } else {
        st = Store::default();
        let creator = d::actor(c.init.creator);
        let (ow, cb) = (c.init.owner.clone(), c.init.cb.clone());
        let text = |a: &Arg| match a {
            Arg::Actor(i) => Some(d::actor(*i)),
            _ => None,
        };
        owner = text(&ow).unwrap_or_else(|| creator.clone());
        if let Out::Rej(e) = d::instantiate(&mut st, &b, &creator, &json!({"owner":text(&ow),"channel_open_init_options":opts.json(),"send_callbacks_to":text(&cb)})) {
            return bad(&["C02", "C03"], format!("valid instantiation rejected: {e}"));
        }
    }
    if let Some(x) = &c.create {
        let out = d::execute(&mut st, &b, &owner, &json!([]), &json!({"create_channel":{"channel_open_init_options":x.as_ref().map(Opts::json)}}));
        if let Some(x) = x {
            opts = x.clone();
        }
        match out {
            // a request that cannot succeed may be refused right away
            Out::Rej(_) if open || opts.port() != "icahost" || !known_conn(&opts.conn) => return Ok(()),
            Out::Rej(e) => return bad(&["C03", "C01"], format!("create-channel by the owner is rejected: {e}")),
            Out::Ok(_) => {}
        }
    }
    let conn = c.conn.clone().unwrap_or_else(|| opts.conn.clone());
    let version = c.version.as_ref().map_or_else(String::new, |m| m.render(&conn));
    let chan = json!({"endpoint":{"port_id":format!("wasm.{}",b.contract),"channel_id":format!("channel-{next}")},"counterparty_endpoint":{"port_id":c.port,"channel_id":""},
        "order":order_name(c.ordered),"version":version,"connection_id":conn});
    // what it may return
    let mut allowed: Vec<Value> = vec![];
    let mut tri = Tri::No;
    if c.port == "icahost" {
        if let Some(m) = &c.version {
            tri = m.judge(&conn, false);
            allowed.push(m.value(&conn));
            o.class(match tri {
                Tri::Yes => "valid_metadata",
                Tri::No => "invalid_metadata",
                Tri::Any => "unspecified_metadata",
            });
        } else {
            o.class("empty_version");
            let from_opts = (opts.conn == conn).then(|| opts.metadata());
            match prev_meta {
                Some(p) if p["controller_connection_id"] == json!(conn) => {
                    allowed.push(p);
                    tri = Tri::Yes;
                }
                Some(_) => {
                    // the previous metadata is for another connection: refusal, or the options
                    tri = if from_opts.is_some() { Tri::Any } else { Tri::No };
                    allowed.extend(from_opts);
                }
                None => {
                    tri = if from_opts.is_some() { Tri::Yes } else { Tri::No };
                    allowed.extend(from_opts);
                }
            }
        }
    } else {
        o.class("foreign_port");
    }
    o.nontrivial = true;
    let msg = json!({"open_init":{"channel":chan}});
    match d::chan_open(&mut st, &b, &msg) {
        Out::Rej(e) => {
            if tri == Tri::Yes && !open {
                return bad(&["C05", "C03"], format!("a permitted opening {chan} is rejected: {e}"));
            }
            o.class("refused");
            return Ok(());
        }
        Out::Ok(v) => {
            if open {
                return bad(&["C03"], "an opening is admitted while the tracked channel is open");
            }
            if tri == Tri::No {
                return bad(&["C05"], format!("opening {chan} is accepted"));
            }
            let got = match (v["version"].as_str(), &c.version) {
                (Some(t), _) => parse(t),
                (None, Some(_)) if v.is_null() => parse(&version),
                _ => None,
            };
            if !got.as_ref().is_some_and(|g| allowed.contains(g)) {
                return bad(&["C05"], format!("the version returned for {chan} is {v}, should be {allowed:?}"));
            }
            o.class("accepted");
        }
    }
    // the permission is used up
    let mut chan2 = chan.clone();
    chan2["endpoint"]["channel_id"] = json!(format!("channel-{}", next + 1));
    if let Out::Ok(_) = d::chan_open(&mut st.clone(), &b, &json!({"open_init":{"channel":chan2}})) {
        return bad(&["C03"], "one request admits two openings");
    }
    // the counterparty's answer
    let text = c.ack.render(&conn);
    let mut ch = chan;
    ch["counterparty_endpoint"]["channel_id"] = json!(format!("channel-{}", c.ack_cp));
    let tri = c.ack.judge(&conn, true);
    match d::chan_connect(&mut st, &b, &json!({"open_ack":{"channel":ch,"counterparty_version":text}})) {
        Out::Rej(e) => {
            if tri == Tri::Yes {
                return bad(&["C05"], format!("a handshake with valid metadata {text} is rejected: {e}"));
            }
            o.class("answer_refused");
        }
        Out::Ok(_) => {
            if tri == Tri::No {
                return bad(&["C05"], format!("a handshake with invalid metadata {text} on {conn} is accepted"));
            }
            o.class("answer_accepted");
            ch["version"] = json!(text);
            let want = json!({"channel":ch,"channel_status":"STATE_OPEN"});
            match d::query(&st, &b, &json!({"get_channel":{}})) {
                Out::Ok(v) if v == want => {}
                x => return bad(&["C06", "C05"], format!("after the handshake the channel is {x:?}, should be {want}")),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// JSON forms

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rq {
    Instantiate(Init),
    Execute(Ex),
    Query(u8),
    Migrate,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsonCase {
    pub init: Init,
    pub rq: Rq,
    pub form: u64,
}
pub fn good_init() -> BoxedStrategy<Init> {
    hist::init()
        .prop_map(|mut i| {
            i.opts.port = None;
            if !known_conn(&i.opts.conn) {
                i.opts.conn = "connection-0".into();
            }
            i.owner = if let Arg::Bad(k) = i.owner { Arg::Actor(k) } else { i.owner };
            i.cb = if let Arg::Bad(k) = i.cb { Arg::Actor(k) } else { i.cb };
            i.time = i.time.min(u64::MAX / 2);
            i
        })
        .boxed()
}
fn rq() -> BoxedStrategy<Rq> {
    let p = hist::Prof { own: 4, send: 8, query: 8, rich: true, ..hist::BASE };
    prop_oneof![2 => hist::init().prop_map(Rq::Instantiate), 8 => hist::ex(p).prop_map(Rq::Execute), 1 => (0u8..3).prop_map(Rq::Query), 1 => Just(Rq::Migrate)].boxed()
}
pub fn json_cases(_: Tier) -> BoxedStrategy<JsonCase> {
    (good_init(), rq(), 1u64..).prop_map(|(init, rq, form)| JsonCase { init, rq, form }).boxed()
}
const QUERIES: [&str; 3] = ["get_contract_state", "get_channel", "ownership"];
impl Rq {
    pub fn value(&self, w: &World) -> Value {
        match self {
            Rq::Instantiate(i) => {
                let t = |a: &Arg| match a {
                    Arg::Actor(i) => Some(d::actor(*i)),
                    Arg::Bad(k) => Some(d::bad_addr(*k)),
                    _ => None,
                };
                json!({"owner":t(&i.owner),"channel_open_init_options":i.opts.json(),"send_callbacks_to":t(&i.cb)})
            }
            Rq::Execute(x) => w.ex_json(x),
            Rq::Query(k) => json!({QUERIES[*k as usize % 3]:{}}),
            Rq::Migrate => json!({}),
        }
    }
    /// outcome and storage afterwards
    pub fn call(&self, w: &World, text: &[u8]) -> (Out, Store) {
        let mut st = w.st.clone();
        let out = match self {
            Rq::Instantiate(i) => {
                st = Store::default();
                d::instantiate_raw(&mut st, &w.b, &d::actor(i.creator), text)
            }
            Rq::Execute(x) => {
                let s = if matches!(x, Ex::Accept) { w.who(&Who::Pending) } else { w.m.owner.clone() };
                d::execute_raw(&mut st, &w.b, &s, &json!([]), text)
            }
            Rq::Query(_) => d::query_raw(&st, &w.b, text),
            Rq::Migrate => {
                st.0.insert(b"contract_info".to_vec(), json!({"contract":contract_info().0,"version":"0.0.1"}).to_string().into_bytes());
                d::migrate_raw(&mut st, &w.b, text)
            }
        };
        (out, st)
    }
}
fn same(a: &(Out, Store), b: &(Out, Store)) -> bool {
    match (&a.0, &b.0) {
        (Out::Ok(x), Out::Ok(y)) => x == y && a.1 == b.1,
        (Out::Rej(_), Out::Rej(_)) => a.1 == b.1,
        _ => false,
    }
}
fn world(i: &Init) -> Result<Option<World>, Viol> {
    World::new(i)
}
pub fn json_check(c: &JsonCase) -> Obs {
    let mut o = Obs::default();
    let w = match world(&c.init) {
        Ok(Some(w)) => w,
        Ok(None) => return o,
        Err(v) => {
            o.class(format!("stopped_by_{}", v.tags.join("_")));
            return o;
        }
    };
    let v = c.rq.value(&w);
    let canon = serde_json::to_vec(&v).unwrap();
    let var = forms::text(&v, c.form);
    let a = c.rq.call(&w, &canon);
    let b = c.rq.call(&w, &var);
    o.class(if a.0.ok() { "accepted" } else { "rejected" });
    o.nontrivial = a.0.ok() && parse(&String::from_utf8_lossy(&var)) != Some(v.clone());
    if !same(&a, &b) {
        o.fail(format!("{} gives {:?}, the equivalent {} gives {:?}", String::from_utf8_lossy(&canon), a.0, String::from_utf8_lossy(&var), b.0));
    }
    // a well-formed request is understood: what the contract refuses, it refuses for its content
    if let (Out::Rej(e), false) = (&a.0, refusable(&c.rq)) {
        if e.starts_with("parse:") {
            o.fail(format!("{} is not understood: {e}", String::from_utf8_lossy(&canon)));
        }
    }
    // typed round trip
    if let Some(t) = typed(&c.rq, &canon) {
        match t {
            Err(e) => o.fail(format!("{}: {e}", String::from_utf8_lossy(&canon))),
            Ok(again) => {
                let x = c.rq.call(&w, &again);
                if !same(&a, &x) {
                    o.fail(format!("{} gives {:?}, but serialised by the library as {} it gives {:?}", String::from_utf8_lossy(&canon), a.0, String::from_utf8_lossy(&again), x.0));
                }
            }
        }
    }
    o
}
/// requests naming a kind of message the contract may not know at all
fn refusable(r: &Rq) -> bool {
    match r {
        Rq::Execute(Ex::Send(s)) => !s.msgs.iter().all(|m| m.supported()) || !s.queries.iter().all(|q| q.supported()),
        _ => false,
    }
}
fn round<T: serde::de::DeserializeOwned + Serialize + PartialEq + std::fmt::Debug>(b: &[u8]) -> Option<Result<Vec<u8>, String>> {
    let x: T = cosmwasm_std::from_json(b).ok()?;
    let again = match cosmwasm_std::to_json_vec(&x) {
        Ok(t) => t,
        Err(e) => return Some(Err(format!("cannot be serialised: {e}"))),
    };
    match cosmwasm_std::from_json::<T>(&again) {
        Ok(y) if y == x => Some(Ok(again)),
        Ok(y) => Some(Err(format!("serialised and decoded again it is {y:?}"))),
        Err(e) => Some(Err(format!("serialised as {}, which does not decode: {e}", String::from_utf8_lossy(&again)))),
    }
}
fn typed(r: &Rq, b: &[u8]) -> Option<Result<Vec<u8>, String>> {
    use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
    match r {
        Rq::Instantiate(_) => round::<InstantiateMsg>(b),
        Rq::Execute(_) => round::<ExecuteMsg>(b),
        Rq::Query(_) => round::<QueryMsg>(b),
        Rq::Migrate => round::<MigrateMsg>(b),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    pub init: Init,
    pub rq: Rq,
    pub how: Break,
    pub at: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Break {
    Operation(String),
    Wrapped,
    TwoOperations,
    WrongType,
    MissingRequired,
    Truncated,
    Trailing(String),
    NotAnObject(u8),
}
const REQUIRED: [&str; 22] = [
    "connection_id",
    "counterparty_connection_id",
    "channel_open_init_options",
    "new_owner",
    "to_address",
    "amount",
    "denom",
    "contract_addr",
    "msg",
    "funds",
    "code_id",
    "new_code_id",
    "label",
    "proposal_id",
    "option",
    "validator",
    "src_validator",
    "dst_validator",
    "type_url",
    "value",
    "path",
    "data",
];
pub fn bad_cases(_: Tier) -> BoxedStrategy<BadCase> {
    let names = prop_oneof![
        4 => pick(["send_custom_ica_messages", "CreateChannel", "createChannel", "create_channels", "close", "send_cosmos_msg", "update_admin", "renounce_ownership", "receive_ica_callback", "migrate", "get_callback_counter", "set_owner", "accept_ownership", ""].into_iter().map(String::from).collect()),
        1 => strings(),
    ];
    let how = prop_oneof![
        4 => names.prop_map(Break::Operation),
        1 => Just(Break::Wrapped),
        1 => Just(Break::TwoOperations),
        6 => Just(Break::WrongType),
        4 => Just(Break::MissingRequired),
        2 => Just(Break::Truncated),
        1 => pick(["}", "x", "{}", ",", "null", "\0"].into_iter().map(String::from).collect()).prop_map(Break::Trailing),
        1 => any::<u8>().prop_map(Break::NotAnObject),
    ];
    (good_init(), rq(), how, any::<u16>()).prop_map(|(init, rq, how, at)| BadCase { init, rq, how, at }).boxed()
}
type Path = Vec<String>;
fn leaves(v: &Value, p: &mut Path, out: &mut Vec<Path>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                p.push(k.clone());
                leaves(x, p, out);
                p.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(i.to_string());
                leaves(x, p, out);
                p.pop();
            }
            out.push(p.clone());
        }
        Value::Null => {}
        _ => out.push(p.clone()),
    }
}
fn required(v: &Value, p: &mut Path, out: &mut Vec<Path>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                p.push(k.clone());
                // null means an optional one
                if REQUIRED.contains(&k.as_str()) && !x.is_null() && !(k == "channel_open_init_options" && p.len() > 1) {
                    out.push(p.clone());
                }
                required(x, p, out);
                p.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(i.to_string());
                required(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    p.iter().fold(v, |v, k| if v.is_array() { &mut v[k.parse::<usize>().unwrap()] } else { &mut v[k.as_str()] })
}
fn known_op(r: &Rq, s: &str) -> bool {
    match r {
        Rq::Execute(_) => ["create_channel", "close_channel", "send_cosmos_msgs", "update_callback_address", "update_ownership"].contains(&s),
        Rq::Query(_) => QUERIES.contains(&s),
        _ => true,
    }
}
fn broken(c: &BadCase, v: &Value) -> Option<Vec<u8>> {
    let op = matches!(c.rq, Rq::Execute(_) | Rq::Query(_));
    let mut v = v.clone();
    let text = |v: &Value| Some(serde_json::to_vec(v).unwrap());
    match &c.how {
        Break::Operation(s) if op && !known_op(&c.rq, s) => {
            let inner = v.as_object()?.values().next()?.clone();
            text(&json!({s.as_str():inner}))
        }
        Break::Wrapped if op => text(&json!([v])),
        Break::TwoOperations if op => {
            let m = v.as_object_mut()?;
            let k = if m.contains_key("close_channel") || m.contains_key("get_channel") { "create_channel" } else { "close_channel" };
            m.insert(k.into(), json!({}));
            text(&v)
        }
        Break::WrongType => {
            let mut l = vec![];
            leaves(&v, &mut vec![], &mut l);
            if l.is_empty() {
                return None;
            }
            let p = &l[c.at as usize % l.len()];
            // content of a message kind unknown to the contract is not its business
            if p.contains(&"custom".to_string()) {
                return None;
            }
            let x = at(&mut v, p);
            *x = match x {
                Value::String(_) => json!(7),
                Value::Number(_) => json!("seven"),
                Value::Bool(_) => json!("true"),
                Value::Array(_) => json!({}),
                _ => return None,
            };
            text(&v)
        }
        Break::MissingRequired => {
            let mut l = vec![];
            required(&v, &mut vec![], &mut l);
            if l.is_empty() {
                return None;
            }
            let p = l[c.at as usize % l.len()].clone();
            let (k, up) = p.split_last().unwrap();
            at(&mut v, up).as_object_mut()?.remove(k);
            text(&v)
        }
        Break::Truncated => {
            let mut t = text(&v)?;
            t.truncate(c.at as usize % t.len());
            Some(t)
        }
        Break::Trailing(s) => {
            let mut t = text(&v)?;
            t.extend_from_slice(s.as_bytes());
            Some(t)
        }
        Break::NotAnObject(k) => Some(["", "null", "7", "\"close_channel\"", "\"get_channel\"", "true", "\u{feff}{}"][*k as usize % 7].as_bytes().to_vec()),
        _ => None,
    }
}
pub fn bad_check(c: &BadCase) -> Obs {
    let mut o = Obs::default();
    let w = match world(&c.init) {
        Ok(Some(w)) => w,
        Ok(None) => return o,
        Err(v) => {
            o.class(format!("stopped_by_{}", v.tags.join("_")));
            return o;
        }
    };
    let v = c.rq.value(&w);
    let Some(t) = broken(c, &v) else { return o };
    let canon = c.rq.call(&w, &serde_json::to_vec(&v).unwrap()).0.ok();
    o.nontrivial = canon;
    o.class(format!("{:?}", c.how).split(['(', ' ']).next().unwrap().to_string());
    let r = c.rq.call(&w, &t);
    if r.0.ok() {
        o.fail(format!("the malformed request {} is accepted: {:?}", String::from_utf8_lossy(&t), r.0));
    }
    o
}

/// the documented fields of the answers to queries
pub fn answers(w: &World) -> Result<(), String> {
    let q = |k: &str| d::query(&w.st, &w.b, &json!({k:{}}));
    let has = |v: &Value, ks: &[&str]| -> Result<(), String> {
        let Some(m) = v.as_object() else { return Err(format!("{v} is not an object")) };
        for k in ks {
            if !m.contains_key(*k) {
                return Err(format!("answer {v} has no field {k}"));
            }
        }
        Ok(())
    };
    let one = |v: &Value, l: &[&str]| if v.as_str().is_some_and(|s| l.contains(&s)) { Ok(()) } else { Err(format!("{v} is not one of {l:?}")) };
    let text = |v: &Value| if v.is_string() { Ok(()) } else { Err(format!("{v} is not a string")) };
    if let Out::Ok(v) = q("get_contract_state") {
        has(&v, &["ica_info", "callback_address"])?;
        if !v["ica_info"].is_null() {
            has(&v["ica_info"], &["ica_address", "channel_id", "encoding"])?;
            text(&v["ica_info"]["ica_address"])?;
            text(&v["ica_info"]["channel_id"])?;
            one(&v["ica_info"]["encoding"], &["proto3", "proto3json"])?;
        } else if w.m.ica.is_some() {
            return Err(format!("state answer {v} has no ica_info"));
        }
    } else {
        return Err("the state query is not answered".into());
    }
    match q("get_channel") {
        Out::Ok(Value::Null) if w.m.tracked.is_none() => {}
        Out::Ok(v) => {
            has(&v, &["channel", "channel_status"])?;
            one(&v["channel_status"], &["STATE_UNINITIALIZED_UNSPECIFIED", "STATE_INIT", "STATE_TRYOPEN", "STATE_OPEN", "STATE_CLOSED", "STATE_FLUSHING", "STATE_FLUSHCOMPLETE"])?;
            let c = &v["channel"];
            has(c, &["endpoint", "counterparty_endpoint", "order", "version", "connection_id"])?;
            one(&c["order"], &["ORDER_ORDERED", "ORDER_UNORDERED"])?;
            for e in ["endpoint", "counterparty_endpoint"] {
                has(&c[e], &["port_id", "channel_id"])?;
            }
        }
        Out::Rej(e) if w.m.tracked.is_some() => return Err(format!("the channel query is not answered: {e}")),
        Out::Rej(_) => {}
    }
    if let Out::Ok(v) = q("ownership") {
        has(&v, &["owner", "pending_owner", "pending_expiry"])?;
    } else {
        return Err("the ownership query is not answered".into());
    }
    // the library's own types read them back unchanged
    use cw_ica_controller::types::state::{ChannelState, ContractState};
    for (k, f) in [
        ("get_contract_state", round::<ContractState> as fn(&[u8]) -> Option<Result<Vec<u8>, String>>),
        ("get_channel", round::<ChannelState>),
    ] {
        if let Out::Ok(v) = q(k) {
            if v.is_null() {
                continue;
            }
            match f(&serde_json::to_vec(&v).unwrap()) {
                Some(Ok(t)) if parse(&String::from_utf8_lossy(&t)) == Some(v.clone()) => {}
                x => return Err(format!("answer {v} read by the library gives {x:?}")),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// permissions in stored images

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flags {
    pub hist: Hist,
    /// missing, false, true
    pub open: u8,
    pub close: u8,
}
pub fn flags(t: Tier) -> BoxedStrategy<Flags> {
    let p = hist::Prof { migrate: 0, bad: 0, ..hist::BASE };
    (hist::hists(p, t), 0u8..3, 0u8..3)
        .prop_map(|(mut hist, open, close)| {
            hist.ops.truncate(10);
            Flags { hist, open, close }
        })
        .boxed()
}
pub fn flags_check(c: &Flags) -> Obs {
    let mut o = Obs::default();
    let r = hist::run(&c.hist, |_| false, |_| Ok(()));
    let Some(mut w) = r.world else { return o };
    if r.viol.is_some() {
        o.class("stopped");
        return o;
    }
    w.st = crate::image::render(&w);
    for (k, f) in [("allow_channel_open_init", c.open), ("allow_channel_close_init", c.close)] {
        match f {
            0 => w.st.0.remove(k.as_bytes()),
            x => w.st.0.insert(k.as_bytes().to_vec(), if x == 1 { b"false".to_vec() } else { b"true".to_vec() }),
        };
    }
    let open = w.m.tracked.as_ref().is_some_and(|t| t.1);
    o.class(format!("open_flag_{}_channel_open_{open}", c.open));
    o.class(format!("close_flag_{}_channel_open_{open}", c.close));
    o.nontrivial = (c.open == 2 && !open) || (c.close == 2 && open);
    let o_ch = json!({"endpoint":{"port_id":w.port(),"channel_id":"channel-4711"},"counterparty_endpoint":{"port_id":"icahost","channel_id":""},
        "order":order_name(w.m.opts.ordered()),"version":w.m.opts.metadata().to_string(),"connection_id":w.m.opts.conn});
    let msg = json!({"open_init":{"channel":o_ch}});
    let mut st = w.st.clone();
    let want = c.open == 2 && !open;
    let got = d::chan_open(&mut st, &w.b, &msg);
    if got.ok() != want {
        o.fail(format!("stored open permission {} (0 missing, 1 false, 2 true), tracked channel open: {open}: an opening gives {got:?}", c.open));
    } else if want && d::chan_open(&mut st, &w.b, &msg).ok() {
        o.fail("a stored open permission is honoured twice");
    }
    if let Some((ch, _)) = &w.m.tracked {
        let msg = json!({"close_init":{"channel":ch}});
        let mut st = w.st.clone();
        let want = c.close == 2 && open;
        let got = d::chan_close(&mut st, &w.b, &msg);
        if got.ok() != want {
            o.fail(format!("stored close permission {} (0 missing, 1 false, 2 true), tracked channel open: {open}: a closing gives {got:?}", c.close));
        } else if want {
            if d::chan_close(&mut st, &w.b, &msg).ok() {
                o.fail("a stored close permission is honoured twice");
            }
            match d::query(&st, &w.b, &json!({"get_channel":{}})) {
                Out::Ok(v) if v["channel_status"] == "STATE_CLOSED" => {}
                x => o.fail(format!("after a permitted closing the channel is {x:?}")),
            }
        }
    }
    o
}
