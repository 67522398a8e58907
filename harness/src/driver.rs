//! Calls the contract's entry points the way the wasm VM does: JSON in, JSON out, a failed call leaves no trace.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{from_json, to_json_vec, Deps, DepsMut, Env, MessageInfo, Order, QuerierWrapper, Record, Storage};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ops::Bound;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!value.is_empty(), "empty storage value");
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

pub struct NoQuerier;
impl cosmwasm_std::Querier for NoQuerier {
    fn raw_query(&self, _: &[u8]) -> cosmwasm_std::QuerierResult {
        cosmwasm_std::SystemResult::Err(cosmwasm_std::SystemError::UnsupportedRequest { kind: "none".into() })
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Value),
    Rej(String),
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub height: u64,
    pub time: u64,
    pub contract: String,
}
impl Blk {
    pub fn env(&self) -> Env {
        let v = json!({"block":{"height":self.height,"time":self.time.to_string(),"chain_id":"controller-1"},
            "transaction":{"index":0},"contract":{"address":self.contract}});
        from_json(serde_json::to_vec(&v).unwrap()).unwrap()
    }
}

thread_local! {
    /// outcomes of the calls made by this thread, while somebody asks for them
    static REC: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
    static INSTANCE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// records every call made by `f`: its outcome (without the text of an error) and the storage afterwards
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    REC.with(|r| *r.borrow_mut() = Some(vec![]));
    let t = f();
    (t, REC.with(|r| r.borrow_mut().take()).unwrap_or_default())
}
/// runs `f` with another instance of the contract, at another address
pub fn elsewhere<T>(n: u8, f: impl FnOnce() -> T) -> T {
    let was = INSTANCE.with(|i| i.replace(n));
    let t = f();
    INSTANCE.with(|i| i.set(was));
    t
}
fn record(what: &str, out: Out, st: &Store) -> Out {
    REC.with(|r| {
        if let Some(v) = r.borrow_mut().as_mut() {
            let o = match &out {
                Out::Ok(x) => x.to_string(),
                Out::Rej(_) => "rejected".into(),
            };
            let mut t = format!("{what}: {o}\n");
            for (k, x) in &st.0 {
                t += &format!("  {} = {}\n", String::from_utf8_lossy(k), String::from_utf8_lossy(x));
            }
            v.push(t);
        }
    });
    out
}

fn run<M: DeserializeOwned, R: Serialize, E: std::fmt::Display>(st: &mut Store, msg: &[u8], f: impl FnOnce(DepsMut, M) -> Result<R, E>) -> Out {
    call(st, &NoQuerier, msg, f)
}
/// any entry point of any contract
pub fn call<M: DeserializeOwned, R: Serialize, E: std::fmt::Display>(st: &mut Store, q: &dyn cosmwasm_std::Querier, msg: &[u8], f: impl FnOnce(DepsMut, M) -> Result<R, E>) -> Out {
    let save = st.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let m: M = from_json(msg).map_err(|e| format!("parse: {e}"))?;
        let api = MockApi::default();
        let deps = DepsMut { storage: st, api: &api, querier: QuerierWrapper::new(q) };
        let r = f(deps, m).map_err(|e| e.to_string())?;
        to_json_vec(&r).map_err(|e| e.to_string())
    }));
    let out = match r {
        Ok(Ok(b)) => Out::Ok(serde_json::from_slice(&b).expect("response JSON")),
        Ok(Err(e)) => {
            *st = save;
            Out::Rej(e)
        }
        Err(_) => {
            *st = save;
            Out::Rej(format!("panic: {}", vcommon::runner::last_panic()))
        }
    };
    record(std::any::type_name::<M>(), out, st)
}

pub fn info(sender: &str, funds: &Value) -> MessageInfo {
    from_json(serde_json::to_vec(&json!({"sender":sender,"funds":funds})).unwrap()).unwrap()
}

fn bytes(v: &Value) -> Vec<u8> {
    serde_json::to_vec(v).unwrap()
}

use cw_ica_controller::contract as c;
use cw_ica_controller::ibc::{handshake as h, relay as r};

pub fn instantiate(st: &mut Store, b: &Blk, sender: &str, msg: &Value) -> Out {
    instantiate_raw(st, b, sender, &bytes(msg))
}
pub fn instantiate_raw(st: &mut Store, b: &Blk, sender: &str, msg: &[u8]) -> Out {
    run(st, msg, |d, m| c::instantiate(d, b.env(), info(sender, &json!([])), m))
}
pub fn execute(st: &mut Store, b: &Blk, sender: &str, funds: &Value, msg: &Value) -> Out {
    execute_raw(st, b, sender, funds, &bytes(msg))
}
pub fn execute_raw(st: &mut Store, b: &Blk, sender: &str, funds: &Value, msg: &[u8]) -> Out {
    run(st, msg, |d, m| c::execute(d, b.env(), info(sender, funds), m))
}
pub fn reply(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| c::reply(d, b.env(), m))
}
pub fn migrate(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    migrate_raw(st, b, &bytes(msg))
}
pub fn migrate_raw(st: &mut Store, b: &Blk, msg: &[u8]) -> Out {
    run(st, msg, |d, m| c::migrate(d, b.env(), m))
}
pub fn chan_open(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| h::ibc_channel_open(d, b.env(), m))
}
pub fn chan_connect(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| h::ibc_channel_connect(d, b.env(), m))
}
pub fn chan_close(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| h::ibc_channel_close(d, b.env(), m))
}
pub fn pkt_ack(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| r::ibc_packet_ack(d, b.env(), m))
}
pub fn pkt_timeout(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    run(st, &bytes(msg), |d, m| r::ibc_packet_timeout(d, b.env(), m))
}
pub fn pkt_recv(st: &mut Store, b: &Blk, msg: &Value) -> Out {
    let save = st.clone();
    let raw = bytes(msg);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let m = from_json(&raw).map_err(|e| e.to_string())?;
        let api = MockApi::default();
        let deps = DepsMut { storage: st, api: &api, querier: QuerierWrapper::new(&NoQuerier) };
        match r::ibc_packet_receive(deps, b.env(), m) {
            Ok(x) => Ok(to_json_vec(&x).unwrap()),
            Err(_) => Err("rejected".into()),
        }
    }));
    match res {
        Ok(Ok(v)) => Out::Ok(serde_json::from_slice(&v).unwrap()),
        Ok(Err(e)) => {
            *st = save;
            Out::Rej(e)
        }
        Err(_) => {
            *st = save;
            Out::Rej("panic".into())
        }
    }
}
/// smart query; the inner value is the decoded JSON answer
pub fn query(st: &Store, b: &Blk, msg: &Value) -> Out {
    query_raw(st, b, &bytes(msg))
}
pub fn query_raw(st: &Store, b: &Blk, msg: &[u8]) -> Out {
    ask(st, msg, |deps, m| c::query(deps, b.env(), m))
}
/// any query entry point of any contract
pub fn ask<M: DeserializeOwned, E: std::fmt::Display>(st: &Store, msg: &[u8], f: impl FnOnce(Deps, M) -> Result<cosmwasm_std::Binary, E>) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Value, String> {
        let m = from_json(msg).map_err(|e| e.to_string())?;
        let api = MockApi::default();
        let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&NoQuerier) };
        let v = f(deps, m).map_err(|e| e.to_string())?;
        serde_json::from_slice(v.as_slice()).map_err(|e| e.to_string())
    }));
    let out = match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Rej(e),
        Err(_) => Out::Rej("panic".into()),
    };
    record("query", out, st)
}

/// addresses of the simulated chain
pub fn actor(i: u8) -> String {
    MockApi::default().addr_make(&format!("actor{}", i % 8)).to_string()
}
pub fn contract_addr() -> String {
    match INSTANCE.with(std::cell::Cell::get) {
        0 => MockApi::default().addr_make("the-ica-controller").to_string(),
        n => MockApi::default().addr_make(&format!("ica-controller-{n}")).to_string(),
    }
}
pub fn bad_addr(k: u8) -> String {
    let a = actor(k);
    match k % 7 {
        0 => String::new(),
        1 => "x".into(),
        2 => a.to_uppercase(),
        3 => MockApi::default().with_prefix("osmo").addr_make("actor0").to_string(),
        4 => {
            let mut s = a;
            let c = if s.ends_with('q') { 'p' } else { 'q' };
            s.pop();
            s.push(c);
            s
        }
        5 => format!("{a} "),
        _ => "not an address".into(),
    }
}
