//! C18: contracts that receive the controller's callbacks through the macro.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcommon::b64;
use vcommon::callbacks::callback;
use vcommon::gen::*;
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};

pub struct Receiver {
    pub with_macro: fn(&[u8]) -> Result<(String, String), String>,
    pub control: fn(&[u8]) -> Result<(String, String), String>,
    pub shape: &'static str,
}

#[allow(dead_code, non_camel_case_types, unused)]
mod generated {
    use super::Receiver;
    /// as the wasm VM hands a message to a contract: decoded content (as debug text) and its JSON
    fn read<T: serde::de::DeserializeOwned + serde::Serialize + std::fmt::Debug>(b: &[u8]) -> Result<(String, String), String> {
        let t: T = cosmwasm_std::from_json(b).map_err(|e| e.to_string())?;
        Ok((format!("{t:?}"), cosmwasm_std::to_json_string(&t).map_err(|e| e.to_string())?))
    }
    #[cosmwasm_schema::cw_serde]
    pub struct Inner {
        pub id: u64,
        pub note: Option<String>,
    }
    include!(env!("VERIF_GENERATED"));
}
use generated::RECEIVERS;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    receiver: usize,
    msg: Value,
}

fn callbacks(_: Tier) -> BoxedStrategy<Case> {
    (0..RECEIVERS.len(), callback()).prop_map(|(receiver, msg)| Case { receiver, msg }).boxed()
}

/// a value of a generated field type; None: leave the field out
fn of(shape: &str) -> BoxedStrategy<Value> {
    let inner = || (u64s(), opt(strings())).prop_map(|(i, n)| json!({"id":i,"note":n}));
    let v: BoxedStrategy<Value> = match shape {
        "str" => strings().prop_map(Value::from).boxed(),
        "u64" => u64s().prop_map(Value::from).boxed(),
        "u8" => any::<u8>().prop_map(Value::from).boxed(),
        "bool" => any::<bool>().prop_map(Value::from).boxed(),
        "u128" => amounts().prop_map(Value::from).boxed(),
        "b64" => bytes().prop_map(|b| json!(b64(&b))).boxed(),
        "opt_str" => opt(strings()).prop_map(|s| json!(s)).boxed(),
        "opt_u64" => opt(u64s()).prop_map(|s| json!(s)).boxed(),
        "strs" => list(strings(), 5).prop_map(|s| json!(s)).boxed(),
        "inner" => inner().boxed(),
        "inners" => proptest::collection::vec(inner(), 0..3).prop_map(|s| json!(s)).boxed(),
        "coin" => coin().prop_map(|c| c.json()).boxed(),
        "pair" => (any::<u8>(), strings()).prop_map(|p| json!(p)).boxed(),
        "map" => proptest::collection::btree_map(strings(), strings(), 0..3).prop_map(|m| json!(m)).boxed(),
        "empty" => Just(json!({})).boxed(),
        x => panic!("shape {x}"),
    };
    // now and then something of another type
    prop_oneof![30 => v, 1 => pick(vec![json!(null), json!(1), json!("x"), json!([]), json!({}), json!(-1), json!(true)])].boxed()
}
fn message(s: &Value) -> BoxedStrategy<Value> {
    let wire = s[0].as_str().unwrap().to_string();
    match s[1].as_str().unwrap() {
        "unit" => Just(json!(wire)).boxed(),
        "new" => of(s[2].as_str().unwrap()).prop_map(move |v| json!({ wire.clone(): v })).boxed(),
        "tuple" => s[2].as_array().unwrap().iter().map(|t| of(t.as_str().unwrap())).collect::<Vec<_>>().prop_map(move |v| json!({ wire.clone(): v })).boxed(),
        _ => {
            let fs: Vec<(String, BoxedStrategy<Value>, u32)> = s[2].as_array().unwrap().iter().map(|f| (f[0].as_str().unwrap().into(), of(f[1].as_str().unwrap()), if f[2] == "default" { 40 } else { 3 })).collect();
            let (names, vals): (Vec<_>, Vec<_>) = fs.into_iter().map(|(n, v, p)| (n, (v, proptest::bool::weighted(f64::from(p) / 100.0)))).unzip();
            vals.prop_map(move |vs| {
                let m: serde_json::Map<String, Value> = names.iter().zip(vs).filter(|(_, (_, drop))| !drop).map(|(n, (v, _))| (n.clone(), v)).collect();
                json!({ wire.clone(): m })
            })
            .boxed()
        }
    }
}
fn own(_: Tier) -> BoxedStrategy<Case> {
    let each: Vec<BoxedStrategy<Case>> = RECEIVERS
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let shapes: Vec<Value> = serde_json::from_str(r.shape).unwrap();
            let mut v: Vec<(u32, BoxedStrategy<Value>)> = vec![
                (1, strings().prop_map(|s| json!({s:{}})).boxed()),
                (1, pick(vec![json!({}), json!(null), json!("receive_ica_callback"), json!({"receive_ica_callback":{}}), json!({"receive_ica_callback":{"unknown":{}}}), json!({"ReceiveIcaCallback":{}}), json!({"hidden":{"a":1}}),
                    json!({"update_ownership":"accept_ownership"}), json!({"update_ownership":"renounce_ownership"}), json!({"update_ownership":{"transfer_ownership":{"new_owner":"x","expiry":null}}})])),
            ];
            v.extend(shapes.iter().map(|s| (8, message(s))));
            proptest::strategy::Union::new_weighted(v).prop_map(move |msg| Case { receiver: i, msg }).boxed()
        })
        .collect();
    proptest::strategy::Union::new(each).boxed()
}

fn decode(f: fn(&[u8]) -> Result<(String, String), String>, b: &[u8]) -> Result<(String, String), String> {
    std::panic::catch_unwind(|| f(b)).unwrap_or_else(|_| Err("panic".into()))
}
/// a receiver built without the query feature does not see query results
fn visible(msg: &Value) -> Value {
    let mut v = msg.clone();
    if !cfg!(feature = "query") {
        if let Some(m) = v.pointer_mut("/receive_ica_callback/on_acknowledgement_packet_callback").and_then(Value::as_object_mut) {
            m.remove("query_result");
        }
    }
    v
}
fn received(c: &Case) -> Obs {
    let mut o = Obs { nontrivial: true, ..Default::default() };
    let text = c.msg.to_string();
    let r = &RECEIVERS[c.receiver % RECEIVERS.len()];
    let (m, k) = (decode(r.with_macro, text.as_bytes()), decode(r.control, text.as_bytes()));
    o.class(c.msg["receive_ica_callback"].as_object().unwrap().keys().next().unwrap().as_str());
    match m {
        Err(e) => o.fail(format!("receiver {} does not decode {text}: {e}", c.receiver)),
        Ok((debug, back)) => {
            let back: Value = serde_json::from_str(&back).unwrap();
            let (got, mut want) = (no_nulls(&back), no_nulls(&visible(&c.msg)));
            if got != want {
                want = c.msg.clone();
                o.fail(format!("receiver {} decodes {want} as {back}", c.receiver));
            } else if k.as_ref().map(|k| &k.0) != Ok(&debug) {
                o.fail(format!("receiver {} decodes {text} to {debug}, with the variant written by hand {k:?}", c.receiver));
            }
        }
    }
    o
}
fn no_nulls(v: &Value) -> Value {
    match v {
        Value::Object(m) => m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), no_nulls(v))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(a) => a.iter().map(no_nulls).collect(),
        x => x.clone(),
    }
}
fn kept(c: &Case) -> Obs {
    let mut o = Obs::default();
    let text = c.msg.to_string();
    let r = &RECEIVERS[c.receiver % RECEIVERS.len()];
    let (m, k) = (decode(r.with_macro, text.as_bytes()), decode(r.control, text.as_bytes()));
    o.nontrivial = k.is_ok();
    o.class(if k.is_ok() { "own_message" } else { "no_message" });
    let same = match (&m, &k) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !same {
        o.fail(format!("receiver {}: {text} is {m:?} with the macro, {k:?} with the variant written by hand", c.receiver));
    }
    o
}

fn main() {
    let suites: Vec<Box<dyn SuiteDyn>> = vec![
        Box::new(Suite { name: "callbacks", quick: 200_000, thorough: 4_000_000, make: callbacks, check: received }),
        Box::new(Suite { name: "own", quick: 200_000, thorough: 4_000_000, make: own, check: kept }),
    ];
    let p = Property {
        id: "C18",
        rule: "callbacks of generated content decoded by a generated receiver enum; own messages of such enums; histories with callbacks emitted by the contract",
        suites,
        assumptions: vec!["receivers are serde enums in the snake-case external tagging that cw_serde prescribes"],
    };
    std::process::exit(vcommon::runner::main(vec![p]));
}
