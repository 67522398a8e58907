//! The simulated controller chain around the real contract, in lockstep with a reference model.
//!
//! The chain part does what wasmd and ibc core do: transactions are atomic, emitted messages run depth first in the
//! same transaction, replies are delivered as asked for, channel ids and packet sequences are assigned by core, only
//! openings/closings that exist are delivered. The model part says what the contract must do at each step.
use crate::driver::{self as d, Blk, Out, Store};
use crate::meta::{Meta, Tri};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::msgs::AMsg;
use vcommon::pb::W;
use vcommon::queries::AQuery;
use vcommon::resp::{self, Expect, Seed};
use vcommon::{b64, unb64};

#[derive(Debug, Clone)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub text: String,
}
#[derive(Debug)]
pub enum Stop {
    Fail(String),
    Viol(Viol),
}
pub type R<T = ()> = Result<T, Stop>;
pub fn viol<T>(tags: &[&'static str], text: impl Into<String>) -> R<T> {
    Err(Stop::Viol(Viol { tags: tags.to_vec(), text: text.into() }))
}
fn fail<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fail(s.into()))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub conn: String,
    pub host: String,
    pub port: Option<String>,
    pub order: Option<bool>,
}
pub fn order_name(ordered: bool) -> &'static str {
    if ordered {
        "ORDER_ORDERED"
    } else {
        "ORDER_UNORDERED"
    }
}
impl Opts {
    pub fn json(&self) -> Value {
        json!({"connection_id":self.conn,"counterparty_connection_id":self.host,"counterparty_port_id":self.port,
            "channel_ordering":self.order.map(order_name)})
    }
    pub fn port(&self) -> &str {
        self.port.as_deref().unwrap_or("icahost")
    }
    pub fn ordered(&self) -> bool {
        self.order.unwrap_or(true)
    }
    pub fn metadata(&self) -> Value {
        json!({"version":"ics27-1","controller_connection_id":self.conn,"host_connection_id":self.host,"address":"",
            "encoding":"proto3","tx_type":"sdk_multi_msg"})
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Who {
    Owner,
    Pending,
    Prev,
    Cb,
    Creator,
    Contract,
    Actor(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Arg {
    None,
    Actor(u8),
    Contract,
    Owner,
    Bad(u8),
}
impl Arg {
    /// (text, valid)
    fn get(&self, w: &World) -> (Option<String>, bool) {
        match self {
            Arg::None => (None, true),
            Arg::Actor(i) => (Some(d::actor(*i)), true),
            Arg::Contract => (Some(d::contract_addr()), true),
            Arg::Owner => (Some(w.m.owner.clone()), true),
            Arg::Bad(k) => (Some(d::bad_addr(*k)), false),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ExpSpec {
    None,
    Never,
    Height(i8),
    Time(i32),
    AbsHeight(u64),
    AbsTime(u64),
}
impl ExpSpec {
    fn get(&self, b: &Blk) -> Option<Exp> {
        match self {
            ExpSpec::None => None,
            ExpSpec::Never => Some(Exp::Never),
            ExpSpec::Height(h) => Some(Exp::Height(b.height.saturating_add_signed(i64::from(*h)))),
            ExpSpec::Time(s) => Some(Exp::Time(b.time.saturating_add_signed(i64::from(*s) * 1_000_000_000))),
            ExpSpec::AbsHeight(h) => Some(Exp::Height(*h)),
            ExpSpec::AbsTime(t) => Some(Exp::Time(*t)),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Exp {
    Never,
    Height(u64),
    Time(u64),
}
impl Exp {
    pub fn json(&self) -> Value {
        match self {
            Exp::Never => json!({"never":{}}),
            Exp::Height(h) => json!({"at_height":h}),
            Exp::Time(t) => json!({"at_time":t.to_string()}),
        }
    }
    fn expired(&self, b: &Blk) -> bool {
        match self {
            Exp::Never => false,
            Exp::Height(h) => b.height >= *h,
            Exp::Time(t) => b.time >= *t,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Send {
    pub msgs: Vec<AMsg>,
    pub queries: Vec<AQuery>,
    pub memo: Option<String>,
    pub timeout: Option<u64>,
}
impl Send {
    pub fn json(&self) -> Value {
        json!({"send_cosmos_msgs":{
            "messages":self.msgs.iter().map(AMsg::json).collect::<Vec<_>>(),
            "queries":self.queries.iter().map(AQuery::json).collect::<Vec<_>>(),
            "packet_memo":self.memo,"timeout_seconds":self.timeout}})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ex {
    Create(Option<Opts>),
    Close,
    Send(Send),
    SetCb(Arg),
    Transfer(Arg, ExpSpec),
    Accept,
    Renounce,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CbMode {
    Ok,
    Fail,
    Reenter { ops: Vec<Ex>, catch: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AckSpec {
    Good { height: u64, seeds: Vec<Seed>, count: Option<u8> },
    Raw(Vec<u8>),
    Error(String),
    BadTx(u8),
    Garbage(u8),
    /// these bytes are the acknowledgement
    Text(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rec {
    /// lower versions, numbered
    Version(String),
    Name(String, String),
    Missing,
    Garbage(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Exec { who: Who, x: Ex, funds: bool },
    RelayInit { port: Option<String>, conn: String, ordered: bool, meta: Meta },
    OpenTry { conn: String, ordered: bool, meta: Meta },
    OpenConfirm { sel: u8 },
    OpenAck { sel: u8, meta: Meta, cb: CbMode, relay_port: u8 },
    RelayClose { sel: u8 },
    CloseConfirm { sel: u8 },
    ForeignClose { init: bool, kind: u8 },
    Ack { sel: u8, ack: AckSpec, relayer: u8, cb: CbMode, space: bool },
    Timeout { sel: u8, relayer: u8, cb: CbMode },
    Recv { sel: u8, data: Vec<u8> },
    BadReply { id: u64, ok: bool, data: Option<Vec<u8>> },
    Migrate { rec: Rec, json_enc: bool },
    Tick { dh: u16, dt: u64 },
    Reimage,
    /// entry-level histories: an opening (closing) the contract asked for is delivered
    Deliver { close: bool },
    /// complete a handshake with ordinary metadata, opening a channel first if none is under way
    Connect { cb: CbMode },
    /// close the open channel one way or another and open a new one
    Cycle { how: u8, opts: Option<Opts> },
    /// the owner proposes an account, which accepts
    Handover { to: u8 },
    /// `n` sends by the owner, going round the list
    Burst { n: u16, sends: Vec<Send> },
    /// every outstanding packet is answered (or times out, where the choice is odd and the entry says so)
    Drain { sels: Vec<u8>, acks: Vec<(AckSpec, bool)> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Init {
    pub creator: u8,
    pub owner: Arg,
    pub cb: Arg,
    pub opts: Opts,
    pub height: u64,
    pub time: u64,
    pub seq0: u64,
    pub chan0: u64,
    /// other applications open channels too: how the ids go on
    #[serde(default)]
    pub gap: u8,
    pub connect: bool,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub owner: String,
    pub creator: String,
    pub prev: Option<String>,
    pub pending: Option<(String, Option<Exp>)>,
    pub cb: Option<String>,
    pub opts: Opts,
    pub tracked: Option<(Value, bool)>,
    pub ica: Option<(String, String)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Init,
    Open,
    Closed,
}
#[derive(Clone, Debug)]
pub struct Pkt {
    pub json: Value,
    pub queries: Vec<AQuery>,
    pub nmsgs: usize,
    pub failed: bool,
}
#[derive(Clone, Debug)]
pub struct Chan {
    pub id: String,
    pub opts: Opts,
    pub cp_chan: String,
    pub version: String,
    pub st: St,
    pub next_seq: u64,
    pub pkts: BTreeMap<u64, Pkt>,
    pub failed: bool,
}
#[derive(Clone)]
pub struct World {
    pub st: Store,
    pub b: Blk,
    pub chans: BTreeMap<u64, Chan>,
    pub next_chan: u64,
    gap: u8,
    pub seq0: u64,
    pub m: Model,
    pub cb: CbMode,
    pub classes: BTreeSet<&'static str>,
    pub trace: Vec<String>,
    in_cb: bool,
    form: crate::forms::Form,
    /// entry-level histories: openings and closings the contract asks for are delivered as separate steps
    pub detached: bool,
    pub asked: Asked,
}
#[derive(Clone, Debug, Default)]
pub struct Asked {
    /// the opening asked for last and not delivered yet, and whether a channel was open when it was asked for
    open: Option<(Em, Want, bool)>,
    close: bool,
    /// requests that were overtaken by another one: what they still admit is not specified
    extra_open: bool,
    extra_close: bool,
}


/// what the contract must emit
#[derive(Clone, Debug)]
pub enum Want {
    Open(Opts),
    Close(String),
    Packet { chan: String, ica: String, send: Send, ts: u64 },
    Callback { to: String, body: Value, query: Option<Expect> },
}

/// what it emitted
#[derive(Clone, Debug)]
pub enum Em {
    Open(Value, Value),
    Close(String),
    Packet { chan: String, data: Vec<u8>, timeout: Value },
    Exec { to: String, msg: Vec<u8>, funds: Value },
    Other(Value),
}
impl Em {
    fn tags(&self) -> &'static [&'static str] {
        match self {
            Em::Open(..) => &["C03", "C04"],
            Em::Close(_) => &["C07"],
            Em::Packet { .. } => &["C08"],
            Em::Exec { .. } => &["C13"],
            Em::Other(_) => &["C08", "C13"],
        }
    }
}
impl Want {
    fn tags(&self) -> &'static [&'static str] {
        match self {
            Want::Open(..) => &["C03", "C04"],
            Want::Close(_) => &["C07"],
            Want::Packet { .. } => &["C08"],
            Want::Callback { .. } => &["C13"],
        }
    }
}

pub fn read_em(m: &Value) -> Em {
    let st = m.get("stargate").or_else(|| m.get("any"));
    if let Some(s) = st {
        if s["type_url"] == "/ibc.core.channel.v1.MsgChannelOpenInit" {
            if let Ok(b) = unb64(s["value"].as_str().unwrap_or("")) {
                if let Ok(v) = vcommon::pb::decode(&b, vcommon::host::OPENINIT) {
                    let ver = v["channel"]["version"].as_str().unwrap_or("");
                    let meta = serde_json::from_str(ver).unwrap_or_else(|_| json!({"unparseable":ver}));
                    return Em::Open(v, meta);
                }
            }
        }
    }
    if let Some(c) = m["ibc"].get("close_channel") {
        return Em::Close(c["channel_id"].as_str().unwrap_or("").into());
    }
    if let Some(c) = m["ibc"].get("send_packet") {
        return Em::Packet {
            chan: c["channel_id"].as_str().unwrap_or("").into(),
            data: unb64(c["data"].as_str().unwrap_or("")).unwrap_or_default(),
            timeout: c["timeout"].clone(),
        };
    }
    if let Some(c) = m["wasm"].get("execute") {
        return Em::Exec {
            to: c["contract_addr"].as_str().unwrap_or("").into(),
            msg: unb64(c["msg"].as_str().unwrap_or("")).unwrap_or_default(),
            funds: c["funds"].clone(),
        };
    }
    Em::Other(m.clone())
}

/// compares one emitted message with what it must be
pub fn match_em(e: &Em, w: &Want, contract: &str) -> R {
    match (e, w) {
        (Em::Open(v, meta), Want::Open(o)) => {
            let want = json!({"port":format!("wasm.{contract}"),"signer":contract,"channel":{"state":1,"ordering":if o.ordered(){2}else{1},
                "counterparty":{"port":o.port(),"channel":""},"hops":[o.conn],"version":v["channel"]["version"]}});
            if v != &want {
                return viol(&["C04"], format!("channel-open request {v}, options ask for {want}"));
            }
            if meta != &o.metadata() {
                return viol(&["C04"], format!("channel-open metadata {meta}, options ask for {}", o.metadata()));
            }
            Ok(())
        }
        (Em::Close(a), Want::Close(b)) => {
            if a != b {
                return viol(&["C07"], format!("asks to close {a}, tracked channel is {b}"));
            }
            Ok(())
        }
        (Em::Packet { chan, data, timeout }, Want::Packet { chan: wc, ica, send, ts }) => {
            if chan != wc {
                return viol(&["C08"], format!("packet on {chan}, the account's channel is {wc}"));
            }
            if timeout.get("block").is_some_and(|b| !b.is_null()) || timeout["timestamp"] != json!(ts.to_string()) {
                return viol(&["C08"], format!("packet timeout {timeout}, expected timestamp {ts} and no height"));
            }
            match_packet(data, ica, send)
        }
        (Em::Exec { to, msg, funds }, Want::Callback { to: wt, body, query }) => {
            if to != wt {
                return viol(&["C13"], format!("callback sent to {to}, configured address {wt}"));
            }
            if !funds.as_array().is_some_and(Vec::is_empty) {
                return viol(&["C13"], format!("callback with funds {funds}"));
            }
            let v: Value = match serde_json::from_slice(msg) {
                Ok(v) => v,
                Err(e) => return viol(&["C13", "C18"], format!("callback is not JSON: {e}")),
            };
            match_callback(&v, body, query.as_ref())
        }
        _ => viol(
            &[e.tags(), w.tags()].concat(),
            format!("emitted {e:?}, expected {w:?}"),
        ),
    }
}
pub fn match_packet(data: &[u8], ica: &str, send: &Send) -> R {
    let p = match vcommon::host::read_packet(data) {
        Ok(p) => p,
        Err(e) => return viol(&["C08", "C09", "C10"], e),
    };
    if !p.typ_ok {
        return viol(&["C08"], "packet is not of execute-transaction type");
    }
    if p.memo != send.memo.clone().unwrap_or_default() {
        return viol(&["C08"], format!("packet memo {:?}, requested {:?}", p.memo, send.memo));
    }
    match vcommon::host::check_tx(&p.data, ica, &send.msgs, &send.queries) {
        Ok(()) => Ok(()),
        Err((true, t)) => viol(&["C10"], t),
        Err((false, t)) if send.queries.is_empty() => viol(&["C09"], t),
        Err((false, t)) if send.msgs.is_empty() => viol(&["C10"], t),
        Err((false, t)) => viol(&["C09", "C10"], t),
    }
}
/// fields and types of a JSON value, without its contents
pub fn shape(v: &Value) -> Value {
    match v {
        Value::Object(m) => m.iter().map(|(k, v)| (k.clone(), shape(v))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(_) => json!([]),
        Value::String(_) => json!(""),
        Value::Number(_) => json!(0),
        x => x.clone(),
    }
}
pub fn match_callback(got: &Value, body: &Value, query: Option<&Expect>) -> R {
    let mut g = got.clone();
    let inner = g.get_mut("receive_ica_callback").and_then(|x| x.as_object_mut()).and_then(|m| if m.len() == 1 { m.values_mut().next() } else { None });
    let Some(inner) = inner.and_then(|x| x.as_object_mut()) else {
        return viol(&["C13", "C18"], format!("callback is not a receive_ica_callback: {got}"));
    };
    let qr = inner.remove("query_result").filter(|x| !x.is_null());
    if &g != body {
        let tags: &[&'static str] = if shape(&g) == shape(body) { &["C13"] } else { &["C13", "C18"] };
        return viol(tags, format!("callback content {g}, event is {body}"));
    }
    // the library's own receiver type reads it back without loss
    let sent = &got["receive_ica_callback"];
    match cosmwasm_std::from_json::<cw_ica_controller::types::callbacks::IcaControllerCallbackMsg>(sent.to_string()) {
        Err(e) => return viol(&["C18"], format!("the library's callback type does not decode {sent}: {e}")),
        Ok(t) => {
            let back: Value = serde_json::from_slice(&cosmwasm_std::to_json_vec(&t).unwrap()).unwrap();
            if &back != sent {
                return viol(&["C18"], format!("the library's callback type reads {sent} as {back}"));
            }
        }
    }
    match (qr, query) {
        (None, None) => Ok(()),
        (Some(q), None) => viol(&["C11", "C13"], format!("query result {q} for a packet that carried no queries")),
        (None, Some(_)) => viol(&["C11", "C12", "C13"], "no query result for a packet that carried queries"),
        (Some(q), Some(e)) => match resp::check_result(&q, e) {
            Ok(()) => Ok(()),
            Err(t) => viol(&["C11", "C12", "C13"], t),
        },
    }
}

pub fn known_conn(c: &str) -> bool {
    c.strip_prefix("connection-").is_some_and(|n| !n.is_empty() && n.len() < 20 && n.chars().all(|c| c.is_ascii_digit()) && n != "99")
}

impl Chan {
    pub fn json(&self, port: &str) -> Value {
        json!({"endpoint":{"port_id":port,"channel_id":self.id},"counterparty_endpoint":{"port_id":self.opts.port(),"channel_id":self.cp_chan},
            "order":order_name(self.opts.ordered()),"version":self.version,"connection_id":self.opts.conn})
    }
}

impl World {
    pub fn port(&self) -> String {
        format!("wasm.{}", self.b.contract)
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.insert(c);
    }
    /// atomic transaction
    pub fn tx(&mut self, f: impl FnOnce(&mut World) -> R) -> R {
        let save = self.clone();
        let r = f(self);
        if let Err(Stop::Fail(_)) = r {
            let c = std::mem::take(&mut self.classes);
            let t = std::mem::take(&mut self.trace);
            *self = save;
            self.classes = c;
            self.trace = t;
        }
        r
    }

    pub fn new(i: &Init) -> Result<Option<World>, Viol> {
        Self::with_form(i, 0)
    }
    pub fn with_form(i: &Init, form: u64) -> Result<Option<World>, Viol> {
        Self::start(i, form, false)
    }
    pub fn start(i: &Init, form: u64, detached: bool) -> Result<Option<World>, Viol> {
        let b = Blk { height: i.height, time: i.time, contract: d::contract_addr() };
        let creator = d::actor(i.creator);
        let mut w = World {
            st: Store::default(),
            b,
            chans: BTreeMap::new(),
            next_chan: i.chan0,
            gap: i.gap,
            seq0: i.seq0,
            m: Model { owner: creator.clone(), creator: creator.clone(), prev: None, pending: None, cb: None, opts: i.opts.clone(), tracked: None, ica: None },
            cb: CbMode::Ok,
            classes: BTreeSet::new(),
            trace: vec![],
            in_cb: false,
            form: crate::forms::Form(form),
            detached,
            asked: Asked::default(),
        };
        let (owner, ok1) = i.owner.get(&w);
        let (cb, ok2) = i.cb.get(&w);
        let msg = json!({"owner":owner,"channel_open_init_options":i.opts.json(),"send_callbacks_to":cb});
        let doomed = !known_conn(&i.opts.conn) || i.opts.port() != "icahost";
        let r = w.tx(|w| {
            let text = w.form.text(&msg);
            let o = d::instantiate_raw(&mut w.st, &w.b, &creator, &text);
            match o {
                Out::Rej(e) => {
                    if ok1 && ok2 && !doomed {
                        return viol(&["C02", "C03", "C04", "C13"], format!("valid instantiation rejected: {e}"));
                    }
                    fail(e)
                }
                Out::Ok(v) => {
                    if !ok1 {
                        return viol(&["C02"], format!("instantiated with invalid owner {owner:?}"));
                    }
                    if !ok2 {
                        return viol(&["C13"], format!("instantiated with invalid callback address {cb:?}"));
                    }
                    if let Some(o) = owner {
                        w.m.owner = o;
                    }
                    w.m.cb = cb;
                    let opts = w.m.opts.clone();
                    w.finish(&v, vec![Want::Open(opts)], None)
                }
            }
        });
        match r {
            Ok(()) => {}
            Err(Stop::Fail(_)) => return Ok(None),
            Err(Stop::Viol(v)) => return Err(v),
        }
        if let Err(Stop::Viol(v)) = w.compare(&[]) {
            return Err(v);
        }
        if i.connect {
            w.step(&Op::Connect { cb: CbMode::Ok })?;
        }
        Ok(Some(w))
    }

    /// checks what an accepted call emitted and lets the chain carry it out
    fn finish(&mut self, resp: &Value, want: Vec<Want>, event: Option<Vec<(String, String)>>) -> R {
        let msgs = resp["messages"].as_array().cloned().unwrap_or_default();
        let ems: Vec<Em> = msgs.iter().map(|m| read_em(&m["msg"])).collect();
        if ems.len() != want.len() {
            let mut tags: Vec<&'static str> = vec![];
            for e in &ems {
                tags.extend(e.tags());
            }
            for w in &want {
                tags.extend(w.tags());
            }
            return viol(&tags, format!("emitted {} messages {ems:?}, expected {want:?}", ems.len()));
        }
        for (e, w) in ems.iter().zip(&want) {
            match_em(e, w, &self.b.contract)?;
        }
        // events
        let evs: Vec<&Value> = resp["events"].as_array().into_iter().flatten().filter(|e| e["type"] == "acknowledge_packet").collect();
        match (&event, evs.len()) {
            (None, 0) => {}
            (None, _) => return viol(&["C15"], format!("acknowledge_packet event from an entry point that processes no acknowledgement: {evs:?}")),
            (Some(want), 1) => {
                let mut got: Vec<(String, String)> = evs[0]["attributes"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|a| (a["key"].as_str().unwrap_or("").to_string(), a["value"].as_str().unwrap_or("").to_string()))
                    .collect();
                got.sort();
                let mut want = want.clone();
                want.sort();
                if got != want {
                    return viol(&["C15"], format!("acknowledge_packet event {got:?}, expected {want:?}"));
                }
            }
            (Some(_), n) => return viol(&["C15"], format!("{n} acknowledge_packet events for one acknowledgement")),
        }
        for ((m, e), w) in msgs.iter().zip(ems).zip(want) {
            if self.detached && m["reply_on"].as_str().unwrap_or("never") == "never" {
                if let Want::Open(_) = w {
                    self.asked.extra_open |= self.asked.open.is_some();
                    let open = self.m.tracked.as_ref().is_some_and(|t| t.1);
                    self.asked.open = Some((e, w, open));
                    continue;
                }
                if let Want::Close(_) = w {
                    self.asked.extra_close |= self.asked.close;
                    self.asked.close = true;
                    continue;
                }
            }
            self.submsg(m, e, &w)?;
        }
        Ok(())
    }

    fn submsg(&mut self, m: &Value, e: Em, w: &Want) -> R {
        let on = m["reply_on"].as_str().unwrap_or("never").to_string();
        let mut data: Option<(Vec<u8>, &'static str)> = None;
        let r = self.tx(|s| {
            data = s.run_em(e, w)?;
            Ok(())
        });
        let reply = |s: &mut World, result: Value| {
            let msg = json!({"id":m["id"],"payload":m.get("payload").cloned().unwrap_or(json!("")),"gas_used":0,"result":result});
            d::reply(&mut s.st, &s.b, &msg)
        };
        match r {
            Ok(()) => {
                if on == "success" || on == "always" {
                    let res = match &data {
                        Some((b, url)) => json!({"ok":{"events":[],"data":b64(b),"msg_responses":[{"type_url":url,"value":b64(b)}]}}),
                        None => json!({"ok":{"events":[],"data":null,"msg_responses":[]}}),
                    };
                    match reply(self, res) {
                        Out::Ok(v) => self.finish(&v, vec![], None)?,
                        Out::Rej(x) => {
                            let t: &[&'static str] = match w {
                                Want::Packet { .. } => &["C08", "C10", "C11"],
                                Want::Callback { .. } => &["C13", "C14"],
                                _ => &["C03", "C07"],
                            };
                            return viol(t, format!("the contract rejects the reply to its own submessage: {x}"));
                        }
                    }
                }
                Ok(())
            }
            Err(Stop::Fail(t)) => {
                if on == "error" || on == "always" {
                    if let Out::Ok(_) = reply(self, json!({"error":t})) {
                        let tags: &[&'static str] = match w {
                            Want::Packet { .. } => &["C08"],
                            Want::Callback { .. } => &["C14"],
                            Want::Open(_) => &["C03", "C04"],
                            Want::Close(_) => &["C07"],
                        };
                        return viol(tags, format!("{w:?} failed ({t}) but the operation takes effect all the same"));
                    }
                }
                Err(Stop::Fail(t))
            }
            v => v,
        }
    }

    fn run_em(&mut self, e: Em, w: &Want) -> R<Option<(Vec<u8>, &'static str)>> {
        match (e, w) {
            (Em::Open(v, meta), Want::Open(o)) => {
                if !known_conn(&o.conn) {
                    return fail("core: connection not found");
                }
                let n = self.next_chan;
                self.next_chan = match self.gap % 4 {
                    1 => n.saturating_mul(10).clamp(n + 1, n + 1_000_000_000),
                    2 => n.saturating_mul(10).saturating_add(n % 10).clamp(n + 1, n + 1_000_000_000),
                    3 if n % 3 == 0 => n + 9,
                    _ => n + 1,
                };
                let ver = v["channel"]["version"].as_str().unwrap().to_string();
                let mut ch = Chan {
                    id: format!("channel-{n}"),
                    opts: o.clone(),
                    cp_chan: String::new(),
                    version: ver.clone(),
                    st: St::Init,
                    next_seq: self.seq0,
                    pkts: BTreeMap::new(),
                    failed: false,
                };
                let j = ch.json(&self.port());
                let out = d::chan_open(&mut self.st, &self.b, &json!({"open_init":{"channel":j}}));
                let open = self.m.tracked.as_ref().is_some_and(|t| t.1);
                let port = o.port() == "icahost";
                match out {
                    Out::Rej(e) => {
                        if !open && port {
                            return viol(&["C03", "C05"], format!("the contract's own opening is rejected: {e}"));
                        }
                        return fail(e);
                    }
                    Out::Ok(r) => {
                        if open {
                            return viol(&["C03", "C06"], "an opening is admitted while the tracked channel is open");
                        }
                        if !port {
                            return viol(&["C05"], format!("an opening to port {} is accepted", o.port()));
                        }
                        if let Some(rv) = r["version"].as_str() {
                            if serde_json::from_str::<Value>(rv).ok().as_ref() != Some(&meta) {
                                return viol(&["C05"], format!("OpenInit returns version {rv}, accepted {ver}"));
                            }
                            ch.version = rv.to_string();
                        } else if !r.is_null() {
                            return viol(&["C05"], format!("OpenInit response {r}"));
                        }
                    }
                }
                self.class("opened");
                self.chans.insert(n, ch);
                Ok(Some((W::new().str(1, &format!("channel-{n}")).0, "/ibc.core.channel.v1.MsgChannelOpenInitResponse")))
            }
            (Em::Close(id), _) => {
                let Some(n) = self.find(&id) else { return fail("core: no such channel") };
                if self.chans[&n].st == St::Closed {
                    return fail("core: channel closed");
                }
                let j = self.chans[&n].json(&self.port());
                match d::chan_close(&mut self.st, &self.b, &json!({"close_init":{"channel":j}})) {
                    Out::Rej(e) => viol(&["C07"], format!("the contract's own closing is rejected: {e}")),
                    Out::Ok(v) => {
                        self.chans.get_mut(&n).unwrap().st = St::Closed;
                        if let Some(t) = &mut self.m.tracked {
                            t.1 = false;
                        }
                        self.class("closed_by_owner");
                        self.finish(&v, vec![], None)?;
                        Ok(Some((vec![], "/ibc.core.channel.v1.MsgChannelCloseInitResponse")))
                    }
                }
            }
            (Em::Packet { chan, data, timeout }, Want::Packet { send, .. }) => {
                let Some(n) = self.find(&chan) else { return fail("core: no such channel") };
                if self.chans[&n].st != St::Open {
                    return fail("core: channel is not open");
                }
                let port = self.port();
                let c = self.chans.get_mut(&n).unwrap();
                let seq = c.next_seq;
                let Some(nx) = seq.checked_add(1) else { return fail("core: sequence") };
                c.next_seq = nx;
                let json = json!({"data":b64(&data),"src":{"port_id":port,"channel_id":chan},"dest":{"port_id":c.opts.port(),"channel_id":c.cp_chan},
                    "sequence":seq,"timeout":timeout});
                c.pkts.insert(seq, Pkt { json, queries: send.queries.clone(), nmsgs: send.msgs.len(), failed: false });
                let q = !send.queries.is_empty();
                self.class(if q { "sent_queries" } else { "sent_messages" });
                if self.chans.values().map(|c| c.pkts.values().filter(|p| !p.queries.is_empty()).count()).sum::<usize>() > 1 {
                    self.class("several_query_packets_outstanding");
                }
                Ok(Some((W::new().uint(1, seq).0, "/cosmwasm.wasm.v1.MsgIBCSendResponse")))
            }
            (Em::Exec { to, .. }, _) => {
                self.class("callback_made");
                if let Err(Stop::Viol(mut v)) = self.compare(&["C14"]) {
                    v.text = format!("inside the callback: {}", v.text);
                    return Err(Stop::Viol(v));
                }
                if to == self.b.contract {
                    return fail("callback to the controller itself");
                }
                match self.cb.clone() {
                    CbMode::Ok => Ok(None),
                    CbMode::Fail => {
                        self.class("callback_failed");
                        fail("receiver fails")
                    }
                    CbMode::Reenter { ops, catch } => {
                        let was = self.in_cb;
                        self.in_cb = true;
                        for x in ops {
                            let to = to.clone();
                            let r = if catch { self.tx(|s| s.exec(&to, &x, false)) } else { self.exec(&to, &x, false) };
                            match r {
                                Ok(()) => {
                                    self.class("reentered");
                                    if let Err(Stop::Viol(v)) = self.compare(&["C14"]) {
                                        return Err(Stop::Viol(v));
                                    }
                                }
                                Err(Stop::Fail(t)) => {
                                    if !catch {
                                        return fail(t);
                                    }
                                }
                                Err(Stop::Viol(mut v)) => {
                                    v.tags.push("C14");
                                    return Err(Stop::Viol(v));
                                }
                            }
                        }
                        self.in_cb = was;
                        Ok(None)
                    }
                }
            }
            (e, w) => viol(&["C08"], format!("emitted {e:?}, expected {w:?}")),
        }
    }

    pub fn find(&self, id: &str) -> Option<u64> {
        self.chans.iter().find(|(_, c)| c.id == id).map(|x| *x.0)
    }

    /// the three queries against the model
    pub fn compare(&self, ctx: &[&'static str]) -> R {
        let t = |a: &[&'static str]| [a, ctx].concat();
        let m = &self.m;
        let exp = json!({"owner":m.owner,"pending_owner":m.pending.as_ref().map(|p|p.0.clone()),
            "pending_expiry":m.pending.as_ref().and_then(|p|p.1.as_ref()).map(Exp::json)});
        match d::query(&self.st, &self.b, &json!({"ownership":{}})) {
            Out::Ok(v) => {
                if v["owner"] != exp["owner"] {
                    return viol(&t(&["C02", "C01"]), format!("owner is {v}, should be {exp}"));
                }
                if v != exp {
                    return viol(&t(&["C02"]), format!("ownership is {v}, should be {exp}"));
                }
            }
            Out::Rej(e) => return viol(&t(&["C02"]), format!("ownership query fails: {e}")),
        }
        let ica = m.ica.as_ref().map(|(a, c)| json!({"ica_address":a,"channel_id":c,"encoding":"proto3"}));
        match d::query(&self.st, &self.b, &json!({"get_contract_state":{}})) {
            Out::Ok(v) => {
                if v["callback_address"] != json!(m.cb) {
                    return viol(&t(&["C13"]), format!("callback address is {}, should be {:?}", v["callback_address"], m.cb));
                }
                if v["ica_info"] != json!(ica) {
                    return viol(&t(&["C06"]), format!("account is {}, should be {ica:?}", v["ica_info"]));
                }
            }
            Out::Rej(e) => return viol(&t(&["C06", "C13"]), format!("state query fails: {e}")),
        }
        let ch = d::query(&self.st, &self.b, &json!({"get_channel":{}}));
        match (&m.tracked, ch) {
            (None, Out::Rej(_) | Out::Ok(Value::Null)) => {}
            (None, Out::Ok(v)) => return viol(&t(&["C06"]), format!("a channel is reported before any handshake completed: {v}")),
            (Some(_), Out::Rej(e)) => return viol(&t(&["C06"]), format!("channel query fails: {e}")),
            (Some((c, open)), Out::Ok(v)) => {
                let want = json!({"channel":c,"channel_status":if *open {"STATE_OPEN"} else {"STATE_CLOSED"}});
                if v != want {
                    return viol(&t(&["C06"]), format!("channel is {v}, should be {want}"));
                }
            }
        }
        Ok(())
    }

    pub fn who(&self, w: &Who) -> String {
        match w {
            Who::Owner => self.m.owner.clone(),
            Who::Pending => self.m.pending.as_ref().map_or_else(|| d::actor(7), |p| p.0.clone()),
            Who::Prev => self.m.prev.clone().unwrap_or_else(|| d::actor(6)),
            Who::Cb => self.m.cb.clone().unwrap_or_else(|| d::actor(5)),
            Who::Creator => self.m.creator.clone(),
            Who::Contract => self.b.contract.clone(),
            Who::Actor(i) => d::actor(*i),
        }
    }

    pub fn exec(&mut self, sender: &str, x: &Ex, funds: bool) -> R {
        let is_owner = sender == self.m.owner;
        let open = self.m.tracked.as_ref().is_some_and(|t| t.1);
        let f = if funds { json!([{"denom":"stake","amount":"7"}]) } else { json!([]) };
        let sender = sender.to_string();
        let run = |w: &mut World, msg: &Value| {
            let text = w.form.text(msg);
            d::execute_raw(&mut w.st, &w.b, &sender, &f, &text)
        };
        // decides a call: `ok` what the model says, `bad` tags of a wrong acceptance, `rej` tags of a wrong rejection
        fn judge(out: Out, ok: bool, doomed: bool, bad: &[&'static str], rej: &[&'static str], what: &str) -> R<Value> {
            match out {
                Out::Ok(v) => {
                    if ok {
                        Ok(v)
                    } else {
                        viol(bad, format!("{what} is accepted"))
                    }
                }
                Out::Rej(e) => {
                    if ok && !doomed {
                        viol(rej, format!("{what} is rejected: {e}"))
                    } else {
                        fail(e)
                    }
                }
            }
        }
        if !is_owner {
            self.class("asked_by_non_owner");
        }
        let who = if is_owner { "the owner" } else { "a non-owner" };
        match x {
            Ex::Create(o) => {
                let eff = o.clone().unwrap_or_else(|| self.m.opts.clone());
                let doomed = open || !known_conn(&eff.conn) || eff.port() != "icahost";
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let v = judge(out, is_owner, doomed, &["C01", "C03"], &["C01", "C03", "C04"], &format!("create-channel by {who}"))?;
                if doomed {
                    self.class("doomed_create");
                }
                if o.is_none() {
                    self.class("create_with_remembered_options");
                } else {
                    self.class("create_with_new_options");
                }
                self.m.opts = eff.clone();
                self.finish(&v, vec![Want::Open(eff)], None)
            }
            Ex::Close => {
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let bad: &[&'static str] = if is_owner { &["C07"] } else { &["C01", "C07"] };
                let v = judge(out, is_owner && open, false, bad, &["C01", "C07"], &format!("close-channel by {who} (channel open: {open})"))?;
                let id = self.m.tracked.as_ref().unwrap().0["endpoint"]["channel_id"].as_str().unwrap().to_string();
                self.finish(&v, vec![Want::Close(id)], None)
            }
            Ex::Send(s) => {
                let ts = u128::from(self.b.time) + u128::from(s.timeout.unwrap_or(600)) * 1_000_000_000;
                let m_ok = s.msgs.iter().all(AMsg::supported);
                let q_ok = s.queries.iter().all(AQuery::supported);
                let ok = is_owner && self.m.ica.is_some() && m_ok && q_ok && ts <= u128::from(u64::MAX);
                let doomed = match &self.m.ica {
                    Some((_, c)) => self.find(c).is_none_or(|n| self.chans[&n].st != St::Open),
                    None => true,
                };
                let mut bad = vec![];
                if !is_owner {
                    bad.push("C01");
                }
                if !m_ok {
                    bad.push("C09");
                    self.class("unsupported_message");
                }
                if !q_ok {
                    bad.push("C10");
                    self.class("unsupported_query");
                }
                if self.m.ica.is_none() || ts > u128::from(u64::MAX) {
                    bad.push("C08");
                }
                let mut rej = vec!["C01", "C08"];
                if !s.msgs.is_empty() {
                    rej.push("C09");
                }
                if !s.queries.is_empty() {
                    rej.push("C10");
                }
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let v = judge(out, ok, doomed, &bad, &rej, &format!("a send by {who}"))?;
                let (ica, chan) = self.m.ica.clone().unwrap();
                self.finish(&v, vec![Want::Packet { chan, ica, send: s.clone(), ts: ts as u64 }], None)
            }
            Ex::SetCb(a) => {
                let (t, valid) = a.get(self);
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let bad: &[&'static str] = if is_owner { &["C13"] } else { &["C01", "C13"] };
                let v = judge(out, is_owner && valid, false, bad, &["C01", "C13"], &format!("callback address {t:?} set by {who}"))?;
                self.m.cb = t;
                self.class("callback_address_changed");
                self.finish(&v, vec![], None)
            }
            Ex::Transfer(a, e) => {
                let (t, valid) = a.get(self);
                let t = t.unwrap_or_default();
                let valid = valid && !t.is_empty();
                let exp = e.get(&self.b);
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let bad: &[&'static str] = if is_owner { &["C02"] } else { &["C01", "C02"] };
                let v = judge(out, is_owner && valid, false, bad, &["C01", "C02"], &format!("transfer to {t:?} proposed by {who}"))?;
                if self.m.pending.is_some() {
                    self.class("proposal_replaced");
                }
                self.m.pending = Some((t, exp));
                self.class("proposed");
                self.finish(&v, vec![], None)
            }
            Ex::Accept => {
                let ok = self.m.pending.as_ref().is_some_and(|(p, e)| p == &sender && !e.as_ref().is_some_and(|e| e.expired(&self.b)));
                if self.m.pending.as_ref().is_some_and(|(p, e)| p == &sender && e.as_ref().is_some_and(|e| e.expired(&self.b))) {
                    self.class("late_acceptance");
                }
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                let v = judge(out, ok, false, &["C01", "C02"], &["C02"], &format!("acceptance by {sender} of {:?}", self.m.pending))?;
                self.m.prev = Some(std::mem::replace(&mut self.m.owner, sender.clone()));
                self.m.pending = None;
                self.class("owner_changed");
                self.finish(&v, vec![], None)
            }
            Ex::Renounce => {
                let out = {
                    let j = self.ex_json(x);
                    run(self, &j)
                };
                self.class("renounce_tried");
                judge(out, false, false, &["C02"], &[], &format!("renouncing by {who}"))?;
                Ok(())
            }
        }
    }

    /// the canonical JSON of a request
    pub fn ex_json(&self, x: &Ex) -> Value {
        match x {
            Ex::Create(o) => json!({"create_channel":{"channel_open_init_options":o.as_ref().map(Opts::json)}}),
            Ex::Close => json!({"close_channel":{}}),
            Ex::Send(s) => s.json(),
            Ex::SetCb(a) => json!({"update_callback_address":{"callback_address":a.get(self).0}}),
            Ex::Transfer(a, e) => {
                json!({"update_ownership":{"transfer_ownership":{"new_owner":a.get(self).0.unwrap_or_default(),"expiry":e.get(&self.b).as_ref().map(Exp::json)}}})
            }
            Ex::Accept => json!({"update_ownership":"accept_ownership"}),
            Ex::Renounce => json!({"update_ownership":"renounce_ownership"}),
        }
    }

    /// one step of a history; a rejected transaction is a normal outcome
    pub fn step(&mut self, op: &Op) -> Result<bool, Viol> {
        let r = match op {
            Op::Connect { cb } => {
                if !self.chans.values().any(|c| c.st == St::Init) && self.asked.open.is_some() {
                    self.step(&Op::Deliver { close: false })?;
                }
                if !self.chans.values().any(|c| c.st == St::Init) {
                    let mut o = self.m.opts.clone();
                    if !known_conn(&o.conn) || o.port() != "icahost" {
                        o = Opts { conn: "connection-0".into(), host: "connection-1".into(), port: None, order: o.order };
                    }
                    self.step(&Op::Exec { who: Who::Owner, x: Ex::Create(Some(o)), funds: false })?;
                    self.step(&Op::Deliver { close: false })?;
                }
                return self.step(&Op::OpenAck { sel: 255, meta: Meta::good("cosmos1hostaccount"), cb: cb.clone(), relay_port: 2 });
            }
            Op::Cycle { how, opts } => {
                if self.m.tracked.as_ref().is_some_and(|t| t.1) {
                    let n = self.find(self.m.tracked.as_ref().unwrap().0["endpoint"]["channel_id"].as_str().unwrap()).unwrap();
                    let p = self.chans[&n].pkts.keys().next().copied();
                    match (how % 3, p, self.chans[&n].opts.ordered()) {
                        (0, _, _) => {
                            self.step(&Op::Exec { who: Who::Owner, x: Ex::Close, funds: false })?;
                            self.step(&Op::Deliver { close: true })?
                        }
                        (2, Some(s), true) => {
                            let r = self.tx(|w| w.timeout(n, s, 0));
                            self.after(r, &[])?
                        }
                        _ => {
                            let r = self.tx(|w| w.close_confirm(n));
                            self.after(r, &[])?
                        }
                    };
                }
                self.step(&Op::Exec { who: Who::Owner, x: Ex::Create(opts.clone()), funds: false })?;
                self.step(&Op::Deliver { close: false })?;
                return self.step(&Op::Connect { cb: CbMode::Ok });
            }
            Op::Handover { to } => {
                self.step(&Op::Exec { who: Who::Owner, x: Ex::Transfer(Arg::Actor(*to), ExpSpec::None), funds: false })?;
                return self.step(&Op::Exec { who: Who::Pending, x: Ex::Accept, funds: false });
            }
            Op::Burst { n, sends } => {
                for i in 0..*n as usize {
                    let x = Ex::Send(sends[i % sends.len()].clone());
                    self.step(&Op::Exec { who: Who::Owner, x, funds: false })?;
                }
                return Ok(true);
            }
            Op::Drain { sels, acks } => {
                let n: usize = self.chans.values().map(|c| c.pkts.len()).sum();
                for i in 0..n {
                    let sel = sels[i % sels.len()];
                    let (ack, timeout) = acks[i % acks.len()].clone();
                    if timeout && i % 2 == 1 {
                        self.step(&Op::Timeout { sel, relayer: 1, cb: CbMode::Ok })?;
                    } else {
                        self.step(&Op::Ack { sel, ack, relayer: 2, cb: CbMode::Ok, space: false })?;
                    }
                }
                self.class("drained");
                return Ok(true);
            }
            Op::Exec { who, x, funds } => {
                let s = self.who(who);
                self.tx(|w| w.exec(&s, x, *funds))
            }
            Op::Deliver { close: true } => {
                let id = match &self.m.tracked {
                    Some((c, true)) if self.asked.close => c["endpoint"]["channel_id"].as_str().unwrap().to_string(),
                    Some((c, false)) if self.detached && self.asked.close => {
                        // core only delivers closings of channels that are not closed yet, but the contract guards itself as well
                        let c = c.clone();
                        self.class("closing_of_closed_channel");
                        let r = match d::chan_close(&mut self.st, &self.b, &json!({"close_init":{"channel":c}})) {
                            Out::Ok(_) => viol(&["C07"], "the closing of a channel that is closed already is accepted"),
                            Out::Rej(e) => fail(e),
                        };
                        return self.after(r, &[]);
                    }
                    _ => return Ok(false),
                };
                self.asked.close = false;
                let w = Want::Close(id.clone());
                self.tx(|s| s.run_em(Em::Close(id), &w).map(|_| ()))
            }
            Op::Deliver { close: false } => {
                let Some((e, w, stale)) = self.asked.open.take() else { return Ok(false) };
                let open = self.m.tracked.as_ref().is_some_and(|t| t.1);
                if stale && !open {
                    // a request made while the channel was open need not be good for later
                    self.asked.extra_open = true;
                    return Ok(false);
                }
                self.class(if open { "opening_while_open" } else { "opening_delivered" });
                match self.tx(|s| s.run_em(e.clone(), &w).map(|_| ())) {
                    Err(Stop::Fail(t)) => {
                        // undone, so the request still stands
                        if open {
                            self.asked.open = Some((e, w, true));
                        } else {
                            self.asked.extra_open = true;
                        }
                        fail(t)
                    }
                    r => r,
                }
            }
            Op::RelayInit { .. } if self.asked.open.is_some() || self.asked.extra_open => return Ok(false),
            Op::RelayInit { port, conn, ordered, meta } => {
                let ch = json!({"endpoint":{"port_id":self.port(),"channel_id":format!("channel-{}",self.next_chan)},
                    "counterparty_endpoint":{"port_id":port.as_deref().unwrap_or("icahost"),"channel_id":""},"order":order_name(*ordered),"version":meta.render(conn),"connection_id":conn});
                self.class("relayer_opening");
                match d::chan_open(&mut self.st, &self.b, &json!({"open_init":{"channel":ch}})) {
                    Out::Ok(_) => viol(&["C03"], "an opening started by a relayer is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::OpenTry { conn, ordered, meta } => {
                let v = meta.render(conn);
                let ch = json!({"endpoint":{"port_id":self.port(),"channel_id":format!("channel-{}",self.next_chan)},
                    "counterparty_endpoint":{"port_id":"icahost","channel_id":"channel-77"},"order":order_name(*ordered),"version":v,"connection_id":conn});
                self.class("counterparty_step");
                match d::chan_open(&mut self.st, &self.b, &json!({"open_try":{"channel":ch,"counterparty_version":v}})) {
                    Out::Ok(_) => viol(&["C03", "C17"], "OpenTry is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::OpenConfirm { sel } => {
                let ch = match self.pick(*sel, |_| true) {
                    Some(n) => self.chans[&n].json(&self.port()),
                    None => return Ok(false),
                };
                self.class("counterparty_step");
                match d::chan_connect(&mut self.st, &self.b, &json!({"open_confirm":{"channel":ch}})) {
                    Out::Ok(_) => viol(&["C03", "C17"], "OpenConfirm is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::OpenAck { sel, meta, cb, relay_port } => {
                let n = if *sel == 255 { self.chans.iter().rev().find(|(_, c)| c.st == St::Init).map(|x| *x.0) } else { self.pick(*sel, |c| c.st == St::Init) };
                let Some(n) = n else { return Ok(false) };
                self.cb = cb.clone();
                let r = self.tx(|w| w.open_ack(n, meta, *relay_port));
                if let (Err(Stop::Fail(_)), CbMode::Fail) = (&r, cb) {
                    self.chans.get_mut(&n).unwrap().failed = true;
                }
                r
            }
            Op::RelayClose { .. } if self.asked.close || self.asked.extra_close => return Ok(false),
            Op::RelayClose { sel } => {
                // at entry level the contract's own guards count, not the chain's
                let all = self.detached;
                let Some(n) = self.pick(*sel, |c| all || c.st != St::Closed) else { return Ok(false) };
                let j = self.chans[&n].json(&self.port());
                self.class("relayer_closing");
                match d::chan_close(&mut self.st, &self.b, &json!({"close_init":{"channel":j}})) {
                    Out::Ok(_) => viol(&["C07"], "a closing started by a relayer is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::CloseConfirm { sel } => {
                let all = self.detached;
                let Some(n) = self.pick(*sel, |c| all || c.st != St::Closed) else { return Ok(false) };
                self.tx(|w| w.close_confirm(n))
            }
            Op::ForeignClose { init, kind } => {
                // a channel that is not the tracked one: unknown, or differing from it in one field
                let mut ch = match &self.m.tracked {
                    Some((c, _)) => c.clone(),
                    None => json!({"endpoint":{"port_id":self.port(),"channel_id":"channel-0"},"counterparty_endpoint":{"port_id":"icahost","channel_id":"channel-1"},
                        "order":"ORDER_ORDERED","version":"","connection_id":"connection-0"}),
                };
                match kind % 3 {
                    0 => ch["endpoint"]["channel_id"] = json!(format!("channel-{}", self.next_chan + 5)),
                    1 => ch["endpoint"]["channel_id"] = json!(format!("{}0", ch["endpoint"]["channel_id"].as_str().unwrap())),
                    _ => {
                        ch["endpoint"]["channel_id"] = json!("channel-123456");
                        ch["counterparty_endpoint"]["channel_id"] = json!("channel-654321");
                        ch["order"] = json!("ORDER_UNORDERED");
                    }
                }
                self.class("foreign_closing");
                let k = if *init { "close_init" } else { "close_confirm" };
                match d::chan_close(&mut self.st, &self.b, &json!({k:{"channel":ch}})) {
                    Out::Ok(_) => viol(&["C07", "C17"], "the closing of a channel the contract does not track is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::Ack { sel, ack, relayer, cb, space } => {
                let Some((n, s)) = self.pick_pkt(*sel) else { return Ok(false) };
                self.cb = cb.clone();
                let r = self.tx(|w| w.ack(n, s, ack, *relayer, *space));
                if let (Err(Stop::Fail(_)), CbMode::Fail) = (&r, cb) {
                    self.chans.get_mut(&n).unwrap().pkts.get_mut(&s).unwrap().failed = true;
                }
                r
            }
            Op::Timeout { sel, relayer, cb } => {
                let Some((n, s)) = self.pick_pkt(*sel) else { return Ok(false) };
                self.cb = cb.clone();
                let r = self.tx(|w| w.timeout(n, s, *relayer));
                if let (Err(Stop::Fail(_)), CbMode::Fail) = (&r, cb) {
                    self.chans.get_mut(&n).unwrap().pkts.get_mut(&s).unwrap().failed = true;
                }
                r
            }
            Op::Recv { sel, data } => {
                let (cid, cp) = match self.pick(*sel, |_| true) {
                    Some(n) => (self.chans[&n].id.clone(), self.chans[&n].cp_chan.clone()),
                    None => ("channel-0".into(), "channel-1".into()),
                };
                let p = json!({"data":b64(data),"src":{"port_id":"icahost","channel_id":cp},"dest":{"port_id":self.port(),"channel_id":cid},"sequence":1,
                    "timeout":{"block":null,"timestamp":(self.b.time.saturating_add(5)).to_string()}});
                self.class("packet_received");
                match d::pkt_recv(&mut self.st, &self.b, &json!({"packet":p,"relayer":d::actor(3)})) {
                    Out::Ok(_) => viol(&["C17"], "a received packet is accepted"),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::BadReply { id, ok, data } => {
                if known_reply_ids().contains(id) {
                    return Ok(false);
                }
                let res = if *ok {
                    json!({"ok":{"events":[],"data":data.as_ref().map(|x|b64(x)),"msg_responses":[]}})
                } else {
                    json!({"error":"some failure"})
                };
                self.class("unknown_reply");
                match d::reply(&mut self.st, &self.b, &json!({"id":id,"payload":"","gas_used":0,"result":res})) {
                    Out::Ok(_) => viol(&["C17"], format!("a reply with unknown id {id} is accepted")),
                    Out::Rej(e) => fail(e),
                }
            }
            Op::Migrate { rec, json_enc } => self.tx(|w| w.migrate(rec, *json_enc)),
            Op::Tick { dh, dt } => {
                self.b.height = self.b.height.saturating_add(u64::from(*dh));
                self.b.time = self.b.time.saturating_add(*dt);
                Ok(())
            }
            Op::Reimage if self.detached => return Ok(false),
            Op::Reimage => {
                self.st = crate::image::render(self);
                self.class("reimaged");
                Ok(())
            }
        };
        self.after(r, &[])
    }

    fn after(&mut self, r: R, ctx: &[&'static str]) -> Result<bool, Viol> {
        match r {
            Err(Stop::Viol(v)) => Err(v),
            Err(Stop::Fail(_)) => Ok(false),
            Ok(()) => match self.compare(ctx) {
                Err(Stop::Viol(v)) => Err(v),
                _ => Ok(true),
            },
        }
    }

    fn pick(&self, sel: u8, f: impl Fn(&Chan) -> bool) -> Option<u64> {
        let v: Vec<u64> = self.chans.iter().filter(|(_, c)| f(c)).map(|x| *x.0).collect();
        (!v.is_empty()).then(|| v[sel as usize % v.len()])
    }
    /// a packet that can be answered: the first on an ordered channel, any on an unordered one
    fn pick_pkt(&self, sel: u8) -> Option<(u64, u64)> {
        let v = self.answerable();
        (!v.is_empty()).then(|| v[sel as usize % v.len()])
    }
    pub fn answerable(&self) -> Vec<(u64, u64)> {
        let mut v = vec![];
        for (n, c) in &self.chans {
            let k = if c.opts.ordered() { 1 } else { usize::MAX };
            v.extend(c.pkts.keys().take(k).map(|s| (*n, *s)));
        }
        v
    }

    fn open_ack(&mut self, n: u64, meta: &Meta, relay_port: u8) -> R {
        let conn = self.chans[&n].opts.conn.clone();
        let text = meta.render(&conn);
        // another counterparty chain may use the same id
        let same = "channel-7".to_string();
        let cp = if relay_port % 3 == 2 && !self.chans.values().any(|c| c.opts.conn == conn && c.cp_chan == same) {
            same
        } else {
            format!("channel-{}", 100 + n.wrapping_mul(7) % 900 + u64::from(relay_port))
        };
        let mut c = self.chans[&n].clone();
        c.cp_chan = cp;
        let open = self.m.tracked.as_ref().is_some_and(|t| t.1);
        let tri = meta.judge(&conn, true);
        let j = c.json(&self.port());
        let out = d::chan_connect(&mut self.st, &self.b, &json!({"open_ack":{"channel":j,"counterparty_version":text}}));
        match out {
            Out::Rej(e) => {
                if tri == Tri::Yes && !open {
                    return viol(&["C05", "C06"], format!("a handshake with valid metadata {text} is rejected: {e}"));
                }
                self.class("handshake_refused");
                fail(e)
            }
            Out::Ok(v) => {
                if tri == Tri::No {
                    return viol(&["C05"], format!("a handshake with invalid metadata {text} is accepted"));
                }
                if open {
                    return viol(&["C06"], "an open channel is replaced by another");
                }
                c.version = text;
                c.st = St::Open;
                let j = c.json(&self.port());
                if c.failed {
                    self.class("redelivered");
                }
                self.chans.insert(n, c);
                self.m.tracked = Some((j.clone(), true));
                self.m.ica = Some((meta.addr.clone(), j["endpoint"]["channel_id"].as_str().unwrap().into()));
                self.class("handshake_completed");
                let want = match &self.m.cb {
                    None => vec![],
                    Some(a) => vec![Want::Callback {
                        to: a.clone(),
                        body: json!({"receive_ica_callback":{"on_channel_open_ack_callback":{"channel":j,"ica_address":meta.addr,"tx_encoding":"proto3"}}}),
                        query: None,
                    }],
                };
                self.finish(&v, want, None)
            }
        }
    }

    fn close_confirm(&mut self, n: u64) -> R {
        let j = self.chans[&n].json(&self.port());
        let ok = self.m.tracked.as_ref().is_some_and(|(c, o)| *o && c["endpoint"] == j["endpoint"]);
        match d::chan_close(&mut self.st, &self.b, &json!({"close_confirm":{"channel":j}})) {
            Out::Rej(e) => {
                if ok {
                    return viol(&["C07", "C06"], format!("the counterparty's closing of the tracked channel is rejected: {e}"));
                }
                self.class("closing_of_untracked_channel");
                fail(e)
            }
            Out::Ok(v) => {
                if !ok {
                    return viol(&["C07", "C17"], "the closing of a channel the contract does not track is accepted");
                }
                self.chans.get_mut(&n).unwrap().st = St::Closed;
                self.m.tracked.as_mut().unwrap().1 = false;
                self.class("closed_by_counterparty");
                self.finish(&v, vec![], None)
            }
        }
    }

    fn ack(&mut self, n: u64, s: u64, spec: &AckSpec, relayer: u8, space: bool) -> R {
        let p = self.chans[&n].pkts[&s].clone();
        let rel = if relayer == 200 { "a relayer \"of\" another kind".to_string() } else { d::actor(relayer) };
        let has_q = !p.queries.is_empty();
        // (bytes, is JSON result/error, body, query expectation, may be refused)
        let wrap = |k: &str, v: &str| if space { format!(" {{ \"{k}\" :\n{} }} ", json!(v)) } else { json!({k:v}).to_string() };
        let bytes: Vec<u8>;
        let body: Value;
        let attr: (&str, String);
        let mut query: Option<Expect> = None;
        let mut may_refuse = false;
        let result: Vec<u8> = match spec {
            AckSpec::Good { height, seeds, count } => {
                let mut w = W::new();
                for i in 0..p.nmsgs {
                    w = w.msg(2, W::new().str(1, "/cosmos.bank.v1beta1.MsgSendResponse").bytes(2, &vec![(i % 7) as u8; i % 3]));
                }
                if has_q {
                    let (b, e) = resp::answer(&p.queries, seeds, *height, count.map(|c| if c > 200 { p.queries.len() + 1 } else { c as usize % (p.queries.len() + 1) }));
                    w = w.msg(2, W::new().str(1, "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse").bytes(2, &b));
                    if e == Expect::Error {
                        self.class("bad_query_answer");
                    }
                    query = Some(e);
                }
                w.0
            }
            AckSpec::Text(b) => match read_ack(b) {
                AckText::Result(x) => {
                    if has_q {
                        query = Some(Expect::Unspecified);
                        may_refuse = true;
                    }
                    x
                }
                _ => vec![],
            },
            AckSpec::Raw(b) if !has_q => b.clone(),
            AckSpec::Raw(b) => {
                query = Some(Expect::Error);
                may_refuse = true;
                bad_tx(b.first().copied().unwrap_or(0), &p.queries)
            }
            AckSpec::BadTx(k) => {
                if has_q {
                    query = Some(Expect::Error);
                    may_refuse = true;
                }
                bad_tx(*k, &p.queries)
            }
            _ => vec![],
        };
        let text = if let AckSpec::Text(b) = spec { Some((b.clone(), read_ack(b))) } else { None };
        if let Some((b, AckText::Unspecified)) = &text {
            // nothing is promised; whatever the contract does with it is undone
            d::pkt_ack(&mut self.st.clone(), &self.b, &json!({"acknowledgement":{"data":b64(b)},"original_packet":p.json,"relayer":rel}));
            return fail("unspecified acknowledgement");
        }
        let error_text = match (&text, spec) {
            (Some((_, AckText::Error(t))), _) | (_, AckSpec::Error(t)) => Some(t.clone()),
            _ => None,
        };
        let garbage = match (&text, spec) {
            (Some((b, AckText::Bad)), _) => Some(b.clone()),
            (_, AckSpec::Garbage(k)) => Some(garbage_ack(*k)),
            _ => None,
        };
        match (garbage, error_text) {
            (Some(g), _) => {
                self.class("garbage_ack");
                let out = d::pkt_ack(&mut self.st, &self.b, &json!({"acknowledgement":{"data":b64(&g)},"original_packet":p.json,"relayer":rel}));
                return match out {
                    Out::Ok(_) => viol(&["C17"], format!("acknowledgement {:?} is accepted", String::from_utf8_lossy(&g))),
                    Out::Rej(e) => fail(e),
                };
            }
            (_, Some(t)) => {
                bytes = text.map_or_else(|| wrap("error", &t).into_bytes(), |x| x.0);
                body = json!({"error":t});
                attr = ("error", t);
                if has_q {
                    query = Some(Expect::Error);
                }
                self.class(if has_q { "error_ack_of_queries" } else { "error_ack" });
            }
            _ => {
                let t = b64(&result);
                bytes = text.map_or_else(|| wrap("result", &t).into_bytes(), |x| x.0);
                body = json!({"result":t});
                attr = ("packet_ack_base64", t);
                self.class(if has_q { "result_ack_of_queries" } else { "result_ack" });
            }
        }
        if has_q && self.chans[&n].st != St::Open {
            self.class("answer_on_earlier_channel");
        }
        if has_q && self.chans[&n].pkts.keys().next() != Some(&s) {
            self.class("answered_out_of_order");
        }
        let out = d::pkt_ack(&mut self.st, &self.b, &json!({"acknowledgement":{"data":b64(&bytes)},"original_packet":p.json,"relayer":rel}));
        match out {
            Out::Rej(e) => {
                if may_refuse {
                    self.class("refused_answer");
                    return fail(e);
                }
                let mut t = vec!["C13", "C15"];
                if has_q {
                    t.extend(["C11", "C12"]);
                }
                viol(&t, format!("acknowledgement {} of packet {n}/{s} (queries: {has_q}) is rejected: {e}", String::from_utf8_lossy(&bytes)))
            }
            Out::Ok(v) => {
                if p.failed {
                    self.class("redelivered");
                }
                self.chans.get_mut(&n).unwrap().pkts.remove(&s);
                let want = match &self.m.cb {
                    None => vec![],
                    Some(a) => vec![Want::Callback {
                        to: a.clone(),
                        body: json!({"receive_ica_callback":{"on_acknowledgement_packet_callback":{"ica_acknowledgement":body,"original_packet":p.json,"relayer":rel}}}),
                        query,
                    }],
                };
                let ev = vec![
                    (attr.0.to_string(), attr.1),
                    ("packet_sequence".into(), s.to_string()),
                    ("packet_src_port".into(), self.port()),
                    ("packet_src_channel".into(), self.chans[&n].id.clone()),
                ];
                self.class("acknowledged");
                self.finish(&v, want, Some(ev))
            }
        }
    }

    fn timeout(&mut self, n: u64, s: u64, relayer: u8) -> R {
        let p = self.chans[&n].pkts[&s].clone();
        let rel = d::actor(relayer);
        let out = d::pkt_timeout(&mut self.st, &self.b, &json!({"packet":p.json,"relayer":rel}));
        match out {
            Out::Rej(e) => viol(&["C13", "C06"], format!("timeout of packet {n}/{s} is rejected: {e}")),
            Out::Ok(v) => {
                if p.failed {
                    self.class("redelivered");
                }
                let c = self.chans.get_mut(&n).unwrap();
                c.pkts.remove(&s);
                let id = c.id.clone();
                if c.opts.ordered() {
                    c.st = St::Closed;
                    let mut old = true;
                    if let Some((t, o)) = &mut self.m.tracked {
                        if t["endpoint"]["channel_id"] == json!(id) {
                            *o = false;
                            old = false;
                        }
                    }
                    self.class(if old { "timeout_on_earlier_channel" } else { "timeout_ordered" });
                } else {
                    self.class("timeout_unordered");
                }
                if !p.queries.is_empty() {
                    self.class("timeout_of_queries");
                }
                let want = match &self.m.cb {
                    None => vec![],
                    Some(a) => vec![Want::Callback {
                        to: a.clone(),
                        body: json!({"receive_ica_callback":{"on_timeout_packet_callback":{"original_packet":p.json,"relayer":rel}}}),
                        query: None,
                    }],
                };
                self.finish(&v, want, None)
            }
        }
    }

    fn migrate(&mut self, rec: &Rec, json_enc: bool) -> R {
        let key = b"contract_info".to_vec();
        let (name, cur) = contract_info();
        if json_enc {
            // as earlier releases could record it
            let st = &mut self.st.0;
            let mut v: Value = match st.get(b"state".as_slice()).and_then(|b| serde_json::from_slice(b).ok()) {
                Some(v) => v,
                None => return viol(&["C22"], "the state item is not where the released contract has it"),
            };
            if v["ica_info"]["encoding"] == "proto3" {
                v["ica_info"]["encoding"] = json!("proto3json");
                st.insert(b"state".to_vec(), v.to_string().into_bytes());
                self.class("json_encoding_recorded");
            }
        }
        let enc_ok = !json_enc || self.m.ica.is_none();
        let rec_ok = match rec {
            Rec::Version(v) => {
                self.st.0.insert(key.clone(), json!({"contract":name,"version":v}).to_string().into_bytes());
                crate::image::semver_lower(v, &cur)
            }
            Rec::Name(n, v) => {
                self.st.0.insert(key.clone(), json!({"contract":n,"version":v}).to_string().into_bytes());
                n == &name && crate::image::semver_lower(v, &cur)
            }
            Rec::Missing => {
                self.st.0.remove(&key);
                false
            }
            Rec::Garbage(b) => {
                self.st.0.insert(key.clone(), if b.is_empty() { vec![1] } else { b.clone() });
                false
            }
        };
        let ok = enc_ok && rec_ok;
        match d::migrate(&mut self.st, &self.b, &json!({})) {
            Out::Rej(e) => {
                if ok {
                    return viol(&["C16"], format!("migration from {rec:?} is rejected: {e}"));
                }
                self.class("migration_refused");
                fail(e)
            }
            Out::Ok(v) => {
                if !ok {
                    return viol(&["C16"], format!("migration from {rec:?} (proto3json recorded: {}) is accepted", !enc_ok));
                }
                self.class("migrated");
                // whether a request outlives a migration is not specified
                self.asked.extra_open |= self.asked.open.take().is_some();
                self.asked.extra_close |= std::mem::take(&mut self.asked.close);
                let got: Value = self.st.0.get(&key).and_then(|b| serde_json::from_slice(b).ok()).unwrap_or(Value::Null);
                if got != json!({"contract":name,"version":cur}) {
                    return viol(&["C16"], format!("after migration the recorded version is {got}"));
                }
                match self.finish(&v, vec![], None) {
                    Err(Stop::Viol(mut x)) => {
                        x.tags.push("C16");
                        Err(Stop::Viol(x))
                    }
                    r => r,
                }
            }
        }
    }
}

pub fn bad_tx(k: u8, queries: &[AQuery]) -> Vec<u8> {
    let good = if queries.is_empty() { vec![8, 1] } else { resp::answer(queries, &[], 5, None).0 };
    let any = |b: &[u8]| W::new().msg(2, W::new().str(1, "/x.Y").bytes(2, b));
    match k % 6 {
        0 => vec![],
        1 => vec![0xff, 0xff, 0x01],
        2 => any(&[0x0a, 0x09]).0,
        3 => {
            let mut v = any(&good).0;
            v.pop();
            v
        }
        4 => any(&[]).0,
        _ => W::new().msg(1, W::new().str(1, "/x.Y").bytes(2, &good)).0,
    }
}
pub enum AckText {
    Result(Vec<u8>),
    Error(String),
    Bad,
    Unspecified,
}
/// reads an acknowledgement by the ICS-4 conventions: a JSON object with exactly one of `result` (base64) and `error`
pub fn read_ack(b: &[u8]) -> AckText {
    struct Pairs(Vec<(String, Value)>);
    impl<'de> Deserialize<'de> for Pairs {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> serde::de::Visitor<'de> for V {
                type Value = Pairs;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("object")
                }
                fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Pairs, A::Error> {
                    let mut v = vec![];
                    while let Some(e) = m.next_entry()? {
                        v.push(e);
                    }
                    Ok(Pairs(v))
                }
            }
            d.deserialize_map(V)
        }
    }
    let raw_control = b.iter().any(|c| *c < 0x20) && serde_json::from_slice::<serde::de::IgnoredAny>(b).is_err();
    if raw_control || b.windows(2).any(|w| w == b"\\u") {
        return AckText::Unspecified; // escapes that decoders treat differently
    }
    let Ok(Pairs(v)) = serde_json::from_slice::<Pairs>(b) else { return AckText::Bad };
    match v.as_slice() {
        [(k, Value::String(s))] if k == "error" => AckText::Error(s.clone()),
        [(k, Value::String(s))] if k == "result" => match unb64(s) {
            Ok(x) if &b64(&x) == s => AckText::Result(x),
            _ if s.chars().all(|c| c.is_ascii_alphanumeric() || "+/=-_".contains(c)) => AckText::Unspecified,
            _ => AckText::Bad,
        },
        _ => AckText::Bad,
    }
}
pub fn garbage_ack(k: u8) -> Vec<u8> {
    let l: [&[u8]; 22] = [
        b"",
        b"{}",
        b"null",
        b"\"result\"",
        b"{\"result\":\"AQ==\",\"error\":\"x\"}",
        b"{\"error\":\"x\",\"result\":\"AQ==\"}",
        b"{\"unknown\":\"AQ==\"}",
        b"{\"result\":\"not base64!\"}",
        b"{\"result\":1}",
        b"{\"error\":1}",
        b"{\"error\":null}",
        b"[]",
        b"{\"result\":\"AQ==\"}x",
        b"{\"Result\":\"AQ==\"}",
        b"\xff\xfe",
        b"{\"result\":\"AQ==\"",
        b"AQ==",
        b"{\"result\":null}",
        b"{\"result\":[1]}",
        b"{\"error\":{\"code\":1}}",
        b"0",
        b"{\"response\":{\"result\":\"AQ==\"}}",
    ];
    l[k as usize % l.len()].to_vec()
}

/// reply ids the contract uses for its own submessages
pub fn known_reply_ids() -> &'static BTreeSet<u64> {
    static S: std::sync::OnceLock<BTreeSet<u64>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut out: BTreeSet<u64> = [0].into();
        let mut st = Store::default();
        let b = Blk { height: 10, time: 1_000_000_000, contract: d::contract_addr() };
        let a = d::actor(0);
        let o = json!({"connection_id":"connection-0","counterparty_connection_id":"connection-1"});
        let mut add = |x: Out| {
            if let Out::Ok(v) = x {
                for m in v["messages"].as_array().into_iter().flatten() {
                    if let Some(i) = m["id"].as_u64() {
                        out.insert(i);
                    }
                }
            }
        };
        add(d::instantiate(&mut st, &b, &a, &json!({"channel_open_init_options":o,"send_callbacks_to":d::actor(5)})));
        let opts = Opts { conn: "connection-0".into(), host: "connection-1".into(), port: None, order: None };
        let ch = Chan { id: "channel-0".into(), opts, cp_chan: String::new(), version: String::new(), st: St::Init, next_seq: 1, pkts: BTreeMap::new(), failed: false };
        let mut j = ch.json(&format!("wasm.{}", b.contract));
        j["version"] = json!(ch.opts.metadata().to_string());
        add(d::chan_open(&mut st, &b, &json!({"open_init":{"channel":j}})));
        j["counterparty_endpoint"]["channel_id"] = json!("channel-1");
        add(d::chan_connect(&mut st, &b, &json!({"open_ack":{"channel":j,"counterparty_version":Meta::good("cosmos1a").render("connection-0")}})));
        add(d::execute(&mut st, &b, &a, &json!([]), &json!({"send_cosmos_msgs":{"messages":[],"queries":[{"bank":{"supply":{"denom":"x"}}}]}})));
        add(d::execute(&mut st, &b, &a, &json!([]), &json!({"send_cosmos_msgs":{"messages":[]}})));
        add(d::execute(&mut st, &b, &a, &json!([]), &json!({"close_channel":{}})));
        add(d::execute(&mut st, &b, &a, &json!([]), &json!({"create_channel":{}})));
        out
    })
}

/// the released contract name, and the version of the package under test
pub fn contract_info() -> (String, String) {
    static S: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let t = std::fs::read_to_string(format!("{}/Cargo.toml", vcommon::gen::repo())).unwrap_or_default();
        let v = t.lines().find_map(|l| l.trim().strip_prefix("version")?.trim().strip_prefix('=')).map(|v| v.trim().trim_matches('"').to_string());
        ("crates.io:cw-ica-controller".into(), v.unwrap_or_else(|| "0.20.0".into()))
    })
    .clone()
}
