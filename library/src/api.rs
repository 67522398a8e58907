//! C19: the helper API.
use crate::req::{self, Inst, Req};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{from_json, Addr, Api, CanonicalAddr, Env, Querier, QuerierResult, QuerierWrapper, SystemError, SystemResult};
use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use vcommon::gen::*;
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};
use vcommon::{b64, unb64};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Execute(String, Req),
    Migrate(String, u64),
    UpdateAdmin(String, String),
    ClearAdmin(String),
    Instantiate { code: u64, msg: Inst, label: String, admin: Option<String> },
    Instantiate2 { code: u64, msg: Inst, label: String, admin: Option<String>, salt: String, creator: Vec<u8>, checksum: [u8; 32] },
    Accessors(String, u64),
}

fn calls(_: Tier) -> BoxedStrategy<Call> {
    let salt = prop_oneof![4 => "[a-zA-Z0-9 /=é漢]{1,20}", 2 => lens(70).prop_map(|n| "s".repeat(n)), 1 => strings()];
    let creator = prop_oneof![Just(20usize), Just(32)].prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n));
    prop_oneof![
        6 => (addrs(), req::reqs()).prop_map(|(a, r)| Call::Execute(a, r)),
        1 => (addrs(), u64s()).prop_map(|(a, c)| Call::Migrate(a, c)),
        1 => (addrs(), addrs()).prop_map(|(a, b)| Call::UpdateAdmin(a, b)),
        1 => addrs().prop_map(Call::ClearAdmin),
        2 => (u64s(), req::inst(), strings(), opt(addrs())).prop_map(|(code, msg, label, admin)| Call::Instantiate { code, msg, label, admin }),
        5 => (u64s(), req::inst(), strings(), opt(addrs()), salt, creator, any::<[u8; 32]>())
            .prop_map(|(code, msg, label, admin, salt, creator, checksum)| Call::Instantiate2 { code, msg, label, admin, salt, creator, checksum }),
        1 => (addrs(), u64s()).prop_map(|(a, c)| Call::Accessors(a, c)),
    ]
    .boxed()
}

/// the chain's answer to code queries
struct Codes {
    code: u64,
    checksum: [u8; 32],
}
impl Querier for Codes {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        let v: Value = serde_json::from_slice(b).expect("query JSON");
        let Some(id) = v["wasm"]["code_info"]["code_id"].as_u64() else {
            return SystemResult::Err(SystemError::UnsupportedRequest { kind: v.to_string() });
        };
        let sum: Vec<u8> = if id == self.code { self.checksum.to_vec() } else { Sha256::digest(id.to_be_bytes()).to_vec() };
        let hex: String = sum.iter().map(|x| format!("{x:02x}")).collect();
        let creator = MockApi::default().addr_make("uploader");
        SystemResult::Ok(cosmwasm_std::ContractResult::Ok(json!({"code_id":id,"creator":creator,"checksum":hex}).to_string().into_bytes().into()))
    }
}
/// wasmd's predictable address (BuildContractAddressPredictable, without the message)
fn predictable(checksum: &[u8], creator: &[u8], salt: &[u8]) -> Vec<u8> {
    let mut key = b"wasm\0".to_vec();
    for p in [checksum, creator, salt, &[]] {
        key.extend((p.len() as u64).to_be_bytes());
        key.extend(p);
    }
    let mut h = Sha256::digest(b"module").to_vec();
    h.extend(key);
    Sha256::digest(&h).to_vec()
}
fn env(a: &Addr) -> Env {
    from_json(json!({"block":{"height":1,"time":"1","chain_id":"c"},"transaction":{"index":0},"contract":{"address":a}}).to_string()).unwrap()
}

/// takes the base64 `msg` out of a wasm message, returning its JSON
fn take(v: &mut Value, kind: &str) -> Result<(Vec<u8>, Value), String> {
    let m = v["wasm"][kind].as_object_mut().ok_or(format!("not a wasm {kind} message"))?;
    let raw = unb64(m.remove("msg").as_ref().and_then(Value::as_str).ok_or("no msg")?)?;
    let inner = serde_json::from_slice(&raw).map_err(|e| format!("the message carried is not JSON: {e}"))?;
    Ok((raw, inner))
}
fn same(what: &str, got: &Value, want: &Value) -> Result<(), String> {
    if req::normal(got) == req::normal(want) {
        Ok(())
    } else {
        Err(format!("{what}: {got}, expected {want}"))
    }
}

fn run(c: &Call, o: &mut Obs) -> Result<(), String> {
    let contract = |a: &str| CwIcaControllerContract::new(Addr::unchecked(a));
    let built = |r: Result<cosmwasm_std::CosmosMsg, cosmwasm_std::StdError>| r.map(|m| req::val(&m)).map_err(|e| format!("the helper fails: {e}"));
    o.nontrivial = true;
    match c {
        Call::Execute(a, r) => {
            o.class("execute");
            let typed = r.typed();
            let mut v = built(contract(a).execute(typed.clone()))?;
            let (raw, inner) = take(&mut v, "execute")?;
            same("target", &v, &json!({"wasm":{"execute":{"contract_addr":a,"funds":[]}}}))?;
            same("request carried", &inner, &r.json())?;
            let back: ExecuteMsg = from_json(&raw).map_err(|e| format!("the request carried does not decode: {e}"))?;
            if back != typed {
                return Err(format!("the request carried decodes to {back:?}, asked for {typed:?}"));
            }
        }
        Call::Migrate(a, code) => {
            o.class("migrate");
            let mut v = built(contract(a).migrate(MigrateMsg {}, *code))?;
            let (raw, inner) = take(&mut v, "migrate")?;
            same("target", &v, &json!({"wasm":{"migrate":{"contract_addr":a,"new_code_id":code}}}))?;
            same("request carried", &inner, &json!({}))?;
            from_json::<MigrateMsg>(&raw).map_err(|e| format!("the request carried does not decode: {e}"))?;
        }
        Call::UpdateAdmin(a, b) => {
            o.class("update_admin");
            same("message", &req::val(&contract(a).update_admin(b.clone())), &json!({"wasm":{"update_admin":{"contract_addr":a,"admin":b}}}))?;
        }
        Call::ClearAdmin(a) => {
            o.class("clear_admin");
            same("message", &req::val(&contract(a).clear_admin()), &json!({"wasm":{"clear_admin":{"contract_addr":a}}}))?;
        }
        Call::Accessors(a, code) => {
            o.class("accessors");
            o.nontrivial = false;
            if contract(a).addr().as_str() != a || CwIcaControllerCode::new(*code).code_id() != *code {
                return Err("address or code id changed".into());
            }
        }
        Call::Instantiate { code, msg, label, admin } => {
            o.class("instantiate");
            let mut v = built(CwIcaControllerCode::new(*code).instantiate(msg.typed(), label.clone(), admin.clone()))?;
            let (raw, inner) = take(&mut v, "instantiate")?;
            same("target", &v, &json!({"wasm":{"instantiate":{"code_id":code,"label":label,"admin":admin,"funds":[]}}}))?;
            same("request carried", &inner, &msg.json())?;
            if from_json::<InstantiateMsg>(&raw).ok().as_ref() != Some(&msg.typed()) {
                return Err("the request carried does not decode to the original".into());
            }
        }
        Call::Instantiate2 { code, msg, label, admin, salt, creator, checksum } => {
            let api = MockApi::default();
            let codes = Codes { code: *code, checksum: *checksum };
            let human = api.addr_humanize(&CanonicalAddr::from(creator.clone())).unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                CwIcaControllerCode::new(*code).instantiate2(&api, &QuerierWrapper::new(&codes), &env(&human), msg.typed(), label.clone(), admin.clone(), salt.clone())
            }));
            let Ok(r) = r else { return Err(format!("the helper panics: {}", vcommon::runner::last_panic())) };
            if salt.is_empty() || salt.len() > 64 {
                o.class("instantiate2_impossible_salt");
                return match r {
                    Err(_) => Ok(()),
                    Ok((m, a)) => Err(format!("a salt of {} bytes is accepted ({}, {a})", salt.len(), req::val(&m))),
                };
            }
            o.class("instantiate2");
            let (m, got) = r.map_err(|e| format!("the helper fails: {e}"))?;
            let mut v = req::val(&m);
            let (raw, inner) = take(&mut v, "instantiate2")?;
            same("target", &v, &json!({"wasm":{"instantiate2":{"code_id":code,"label":label,"admin":admin,"funds":[],"salt":b64(salt.as_bytes())}}}))?;
            same("request carried", &inner, &msg.json())?;
            if from_json::<InstantiateMsg>(&raw).ok().as_ref() != Some(&msg.typed()) {
                return Err("the request carried does not decode to the original".into());
            }
            let want = api.addr_humanize(&CanonicalAddr::from(predictable(checksum, creator, salt.as_bytes()))).unwrap();
            if got != want {
                return Err(format!("predicted address {got}, the chain would use {want}"));
            }
        }
    }
    Ok(())
}
fn check(c: &Call) -> Obs {
    let mut o = Obs::default();
    if let Err(e) = run(c, &mut o) {
        o.fail(e);
    }
    o
}

#[cfg(feature = "full")]
mod full {
    //! next to the contract itself
    use super::*;
    use icacheck::driver::{self as d, Out};
    use icacheck::hist::{self, Hist, Prof, BASE};
    use icacheck::sim::World;

    struct Chain<'a>(&'a World);
    impl Querier for Chain<'_> {
        fn raw_query(&self, b: &[u8]) -> QuerierResult {
            let v: Value = serde_json::from_slice(b).expect("query JSON");
            let q = &v["wasm"]["smart"];
            if q["contract_addr"] != d::contract_addr() {
                return SystemResult::Err(SystemError::NoSuchContract { addr: q["contract_addr"].to_string() });
            }
            let m = unb64(q["msg"].as_str().unwrap_or("")).unwrap_or_default();
            SystemResult::Ok(match d::query_raw(&self.0.st, &self.0.b, &m) {
                Out::Ok(v) => cosmwasm_std::ContractResult::Ok(v.to_string().into_bytes().into()),
                Out::Rej(e) => cosmwasm_std::ContractResult::Err(e),
            })
        }
    }
    pub fn histories(t: Tier) -> BoxedStrategy<Hist> {
        hist::hists(Prof { own: 5, chan: 6, bad: 0, ..BASE }, t)
    }
    /// after every step the query helpers return what the contract's queries return
    pub fn queries(h: &Hist) -> Obs {
        let mut o = Obs::default();
        let mut seen = std::collections::BTreeSet::new();
        let r = hist::run(h, |_| false, |w| {
            let chain = Chain(w);
            let q = QuerierWrapper::new(&chain);
            let c = CwIcaControllerContract::new(Addr::unchecked(d::contract_addr()));
            let h = c.query(&q);
            let got = [
                ("get_channel", h.get_channel().map(|x| req::val(&x))),
                ("get_contract_state", h.get_contract_state().map(|x| req::val(&x))),
                ("ownership", h.ownership().map(|x| req::val(&x))),
            ];
            for (name, got) in got {
                let text = match (got, d::query(&w.st, &w.b, &json!({name:{}}))) {
                    (Ok(a), Out::Ok(b)) => {
                        seen.insert(name);
                        if a == b {
                            continue;
                        }
                        format!("{name} helper returns {a}, the contract {b}")
                    }
                    (Err(_), Out::Rej(_)) => {
                        seen.insert("refused_query");
                        continue;
                    }
                    (Ok(a), Out::Rej(e)) => format!("{name} helper returns {a}, the contract refuses: {e}"),
                    (Err(e), Out::Ok(b)) => format!("{name} helper fails ({e}), the contract answers {b}"),
                };
                return Err(icacheck::sim::Viol { tags: vec!["C19"], text });
            }
            Ok(())
        });
        o.nontrivial = seen.contains("get_channel");
        for s in seen {
            o.class(s);
        }
        if let Some(v) = r.viol {
            if v.tags.contains(&"C19") {
                o.fail(format!("step {}: {}", r.at, v.text));
            }
        }
        o
    }
    pub fn requests(_: Tier) -> BoxedStrategy<(Hist, Req)> {
        (histories(Tier::Quick), req::reqs()).prop_map(|(mut h, r)| {
            h.ops.truncate(3);
            (h, r)
        }).boxed()
    }
    /// the contract does the same with the helper's message as with the documented request
    pub fn request(c: &(Hist, Req)) -> Obs {
        let mut o = Obs::default();
        let Some(w) = hist::run(&c.0, |_| false, |_| Ok(())).world else { return o };
        let m = CwIcaControllerContract::new(Addr::unchecked(d::contract_addr())).execute(c.1.typed());
        let mut v = match m {
            Ok(m) => req::val(&m),
            Err(e) => {
                o.fail(format!("the helper fails: {e}"));
                return o;
            }
        };
        let Ok((raw, _)) = take(&mut v, "execute") else {
            o.fail(format!("not an execute message: {v}"));
            return o;
        };
        let call = |msg: &[u8]| {
            let mut st = w.st.clone();
            let out = d::execute_raw(&mut st, &w.b, &w.m.owner, &json!([]), msg);
            (out, st)
        };
        let (a, b) = (call(&raw), call(c.1.json().to_string().as_bytes()));
        let ok = match (&a.0, &b.0) {
            (Out::Ok(x), Out::Ok(y)) => {
                o.class("accepted");
                o.nontrivial = true;
                x == y && a.1 == b.1
            }
            (Out::Rej(_), Out::Rej(_)) => {
                o.class("rejected");
                true
            }
            _ => false,
        };
        if !ok {
            o.fail(format!("the contract does {:?} with the helper's message and {:?} with {}", a.0, b.0, c.1.json()));
        }
        o
    }
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn SuiteDyn>> = vec![Box::new(Suite { name: "messages", quick: 120_000, thorough: 3_000_000, make: calls, check })];
    #[cfg(feature = "full")]
    {
        suites.push(Box::new(Suite { name: "queries", quick: 40_000, thorough: 1_000_000, make: full::histories, check: full::queries }));
        suites.push(Box::new(Suite { name: "requests", quick: 60_000, thorough: 1_500_000, make: full::requests, check: full::request }));
    }
    Property {
        id: "C19",
        rule: "helper calls with generated arguments whose message was compared with the documented form; histories with an answered channel query; helper requests the contract accepted",
        suites,
        assumptions: vec![
            "cosmwasm-std's JSON forms of wasm messages and its bech32 mock addresses are the chain's",
            "wasmd's predictable address is sha256(sha256('module') | 'wasm\\0' | len-prefixed checksum, creator, salt, empty message)",
        ],
    }
}
