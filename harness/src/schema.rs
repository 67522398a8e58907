//! C27: the published JSON schema (written by the repository's schema program) against the contract.
use crate::direct::{JsonCase, Rq};
use crate::driver::{self as d, Out};
use crate::hist::{self, Hist, Prof, BASE};
use crate::sim::{Viol, World};
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::sync::OnceLock;
use vcommon::gen::*;
use vcommon::runner::{Obs, Tier};

/// the full API file
pub fn api() -> &'static Value {
    static S: OnceLock<Value> = OnceLock::new();
    S.get_or_init(|| {
        let dir = std::env::var("VERIF_SCHEMA").unwrap_or_else(|_| "/verif/target/published/schema".into());
        let f = std::fs::read_dir(&dir).ok().and_then(|mut d| d.find_map(|e| e.ok().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json"))));
        let Some(t) = f.and_then(|f| std::fs::read_to_string(f).ok()) else {
            eprintln!("no published schema in {dir}");
            std::process::exit(2);
        };
        serde_json::from_str(&t).unwrap_or_else(|e| {
            eprintln!("the published schema is not JSON: {e}");
            std::process::exit(2)
        })
    })
}

fn deref<'a>(root: &'a Value, r: &str) -> Option<&'a Value> {
    root.pointer(r.strip_prefix('#')?)
}
fn type_ok(t: &str, v: &Value) -> bool {
    match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "integer" => v.is_i64() || v.is_u64(),
        "number" => v.is_number(),
        _ => false,
    }
}
/// draft-07 as far as schemars writes it
pub fn validate(root: &Value, s: &Value, v: &Value) -> Result<(), String> {
    let Some(o) = s.as_object() else {
        return if s == &json!(true) { Ok(()) } else { Err(format!("nothing is allowed where {v} stands")) };
    };
    for (k, x) in o {
        match k.as_str() {
            "$ref" => validate(root, deref(root, x.as_str().unwrap_or("")).ok_or(format!("schema has no {x}"))?, v)?,
            "type" => {
                let ok = match x {
                    Value::String(t) => type_ok(t, v),
                    Value::Array(a) => a.iter().filter_map(Value::as_str).any(|t| type_ok(t, v)),
                    _ => false,
                };
                if !ok {
                    return Err(format!("{v} is not of type {x}"));
                }
            }
            "enum" => {
                if !x.as_array().is_some_and(|a| a.contains(v)) {
                    return Err(format!("{v} is not one of {x}"));
                }
            }
            "oneOf" => {
                let n = x.as_array().map_or(0, |a| a.iter().filter(|s| validate(root, s, v).is_ok()).count());
                if n != 1 {
                    return Err(format!("{v} matches {n} of the alternatives"));
                }
            }
            "anyOf" => {
                if !x.as_array().is_some_and(|a| a.iter().any(|s| validate(root, s, v).is_ok())) {
                    return Err(format!("{v} matches no alternative"));
                }
            }
            "allOf" => {
                for s in x.as_array().into_iter().flatten() {
                    validate(root, s, v)?;
                }
            }
            "required" => {
                if let Some(m) = v.as_object() {
                    if let Some(k) = x.as_array().into_iter().flatten().filter_map(Value::as_str).find(|k| !m.contains_key(*k)) {
                        return Err(format!("{k} is missing in {v}"));
                    }
                }
            }
            "properties" => {
                for (k, s) in x.as_object().into_iter().flatten() {
                    if let Some(e) = v.get(k) {
                        validate(root, s, e)?;
                    }
                }
            }
            "additionalProperties" => {
                if let Some(m) = v.as_object() {
                    for (k, e) in m {
                        if o.get("properties").and_then(|p| p.get(k)).is_none() {
                            validate(root, x, e).map_err(|t| format!("property {k}: {t}"))?;
                        }
                    }
                }
            }
            "items" => {
                for (i, e) in v.as_array().into_iter().flatten().enumerate() {
                    let s = match x {
                        Value::Array(a) => a.get(i),
                        s => Some(s),
                    };
                    if let Some(s) = s {
                        validate(root, s, e)?;
                    }
                }
            }
            "minItems" => {
                if v.as_array().is_some_and(|a| (a.len() as u64) < x.as_u64().unwrap_or(0)) {
                    return Err(format!("{v} is too short"));
                }
            }
            "maxItems" => {
                if v.as_array().is_some_and(|a| (a.len() as u64) > x.as_u64().unwrap_or(u64::MAX)) {
                    return Err(format!("{v} is too long"));
                }
            }
            "minimum" => {
                if v.as_f64().is_some_and(|n| n < x.as_f64().unwrap_or(f64::MIN)) {
                    return Err(format!("{v} is below {x}"));
                }
            }
            "maximum" => {
                if v.as_f64().is_some_and(|n| n > x.as_f64().unwrap_or(f64::MAX)) {
                    return Err(format!("{v} is above {x}"));
                }
            }
            "exclusiveMinimum" => {
                if v.as_f64().is_some_and(|n| n <= x.as_f64().unwrap_or(f64::MIN)) {
                    return Err(format!("{v} is not above {x}"));
                }
            }
            "exclusiveMaximum" => {
                if v.as_f64().is_some_and(|n| n >= x.as_f64().unwrap_or(f64::MAX)) {
                    return Err(format!("{v} is not below {x}"));
                }
            }
            "multipleOf" => {
                if v.as_f64().is_some_and(|n| x.as_f64().is_some_and(|m| m != 0.0 && n % m != 0.0)) {
                    return Err(format!("{v} is no multiple of {x}"));
                }
            }
            "minLength" => {
                if v.as_str().is_some_and(|t| (t.chars().count() as u64) < x.as_f64().unwrap_or(0.0) as u64) {
                    return Err(format!("{v} is shorter than {x}"));
                }
            }
            "maxLength" => {
                if v.as_str().is_some_and(|t| (t.chars().count() as u64) > x.as_f64().unwrap_or(f64::MAX) as u64) {
                    return Err(format!("{v} is longer than {x}"));
                }
            }
            "pattern" => {
                // a pattern this engine does not know decides nothing
                if let (Some(t), Some(Ok(re))) = (v.as_str(), x.as_str().map(regex::Regex::new)) {
                    if !re.is_match(t) {
                        return Err(format!("{v} does not match {x}"));
                    }
                }
            }
            "uniqueItems" => {
                if x == &json!(true) && v.as_array().is_some_and(|a| a.iter().enumerate().any(|(i, e)| a[..i].contains(e))) {
                    return Err(format!("{v} repeats an item"));
                }
            }
            "const" => {
                if v != x {
                    return Err(format!("{v} is not {x}"));
                }
            }
            "not" => {
                if validate(root, x, v).is_ok() {
                    return Err(format!("{v} is what {x} excludes"));
                }
            }
            "minProperties" => {
                if v.as_object().is_some_and(|a| (a.len() as u64) < x.as_f64().unwrap_or(0.0) as u64) {
                    return Err(format!("{v} has too few properties"));
                }
            }
            "maxProperties" => {
                if v.as_object().is_some_and(|a| (a.len() as u64) > x.as_f64().unwrap_or(f64::MAX) as u64) {
                    return Err(format!("{v} has too many properties"));
                }
            }
            "format" => {
                let max = match x.as_str() {
                    Some("uint8") => u64::from(u8::MAX),
                    Some("uint16") => u64::from(u16::MAX),
                    Some("uint32") => u64::from(u32::MAX),
                    _ => u64::MAX,
                };
                if v.as_u64().is_some_and(|n| n > max) {
                    return Err(format!("{v} is no {x}"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// any JSON value that conforms
fn instances(root: &'static Value, s: &'static Value, name: &str, depth: u32) -> BoxedStrategy<Value> {
    let Some(o) = s.as_object() else { return Just(json!({})).boxed() };
    if let Some(r) = o.get("$ref").and_then(Value::as_str) {
        let name = r.rsplit('/').next().unwrap_or("");
        return match deref(root, r) {
            Some(s) if depth < 12 => instances(root, s, name, depth + 1),
            _ => Just(Value::Null).boxed(),
        };
    }
    if let Some(a) = o.get("enum").and_then(Value::as_array) {
        return pick(a.clone());
    }
    if let Some(a) = o.get("oneOf").or_else(|| o.get("anyOf")).and_then(Value::as_array) {
        return Union::new(a.iter().map(|s| instances(root, s, name, depth + 1)).collect::<Vec<_>>()).boxed();
    }
    if let Some(a) = o.get("allOf").and_then(Value::as_array) {
        if a.len() == 1 && !o.contains_key("properties") {
            return instances(root, &a[0], name, depth + 1);
        }
    }
    let types: Vec<&str> = match o.get("type") {
        Some(Value::String(t)) => vec![t],
        Some(Value::Array(a)) => a.iter().filter_map(Value::as_str).collect(),
        _ => vec!["object"],
    };
    let one = |t: &str| -> BoxedStrategy<Value> {
        match t {
            "null" => Just(Value::Null).boxed(),
            "boolean" => any::<bool>().prop_map(|b| json!(b)).boxed(),
            "integer" | "number" => match o.get("format").and_then(Value::as_str) {
                Some("uint64") => u64s().prop_map(|n| json!(n)).boxed(),
                Some("uint32") => any::<u32>().prop_map(|n| json!(n)).boxed(),
                Some("uint16") => any::<u16>().prop_map(|n| json!(n)).boxed(),
                _ => (0u8..=255).prop_map(|n| json!(n)).boxed(),
            },
            "string" => match name {
                "Binary" => bytes().prop_map(|b| json!(vcommon::b64(&b))).boxed(),
                "HexBinary" => bytes().prop_map(|b| json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>())).boxed(),
                "Uint64" | "Timestamp" => u64s().prop_map(|n| json!(n.to_string())).boxed(),
                "Uint128" => any::<u128>().prop_map(|n| json!(n.to_string())).boxed(),
                "Uint256" => any::<u128>().prop_map(|n| json!(n.to_string())).boxed(),
                "Decimal" | "Decimal256" => (0u64..1000, 0u32..1000).prop_map(|(a, b)| json!(format!("{a}.{b:03}"))).boxed(),
                _ => strings().prop_map(|s| json!(s)).boxed(),
            },
            "array" => match o.get("items") {
                Some(Value::Array(a)) => {
                    let mut st: BoxedStrategy<Vec<Value>> = Just(vec![]).boxed();
                    for s in a {
                        st = (st, instances(root, s, "", depth + 1)).prop_map(|(mut v, x)| {
                            v.push(x);
                            v
                        }).boxed();
                    }
                    st.prop_map(Value::Array).boxed()
                }
                Some(s) => proptest::collection::vec(instances(root, s, "", depth + 1), 0..4).prop_map(Value::Array).boxed(),
                None => Just(json!([])).boxed(),
            },
            _ => {
                let req: Vec<&str> = o.get("required").and_then(Value::as_array).into_iter().flatten().filter_map(Value::as_str).collect();
                let mut st: BoxedStrategy<Map<String, Value>> = Just(Map::new()).boxed();
                for (k, s) in o.get("properties").and_then(Value::as_object).into_iter().flatten() {
                    let e = instances(root, s, "", depth + 1);
                    let e = if req.contains(&k.as_str()) { e.prop_map(Some).boxed() } else { opt(e) };
                    st = (st, e).prop_map(move |(mut m, e)| {
                        if let Some(e) = e {
                            m.insert(k.clone(), e);
                        }
                        m
                    }).boxed();
                }
                st.prop_map(Value::Object).boxed()
            }
        }
    };
    Union::new(types.into_iter().map(one).collect::<Vec<_>>()).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Instance {
    kind: u8,
    msg: Value,
}
const KINDS: [&str; 3] = ["execute", "instantiate", "query"];
pub fn conforming(_: Tier) -> BoxedStrategy<Instance> {
    let one = |k: u8| instances(&api()[KINDS[k as usize]], &api()[KINDS[k as usize]], "", 0).prop_map(move |msg| Instance { kind: k, msg });
    prop_oneof![10 => one(0), 3 => one(1), 1 => one(2)].boxed()
}
/// a request that conforms is understood (it may still be refused for what it asks)
pub fn conforming_check(c: &Instance) -> Obs {
    let mut o = Obs::default();
    let root = &api()[KINDS[c.kind as usize % 3]];
    if validate(root, root, &c.msg).is_err() {
        return o;
    }
    o.nontrivial = true;
    o.class(KINDS[c.kind as usize % 3]);
    let b = d::Blk { height: 1, time: 1, contract: d::contract_addr() };
    let mut st = d::Store::default();
    let out = match c.kind % 3 {
        0 => d::execute(&mut st, &b, &d::actor(0), &json!([]), &c.msg),
        1 => d::instantiate(&mut st, &b, &d::actor(0), &c.msg),
        _ => d::query(&st, &b, &c.msg),
    };
    let parse = if c.kind % 3 == 2 { understood(&c.msg) } else { !matches!(&out, Out::Rej(e) if e.starts_with("parse: ")) };
    if !parse {
        o.fail(format!("{} conforms to the published schema but is not understood: {out:?}", c.msg));
    }
    o
}
fn understood(q: &Value) -> bool {
    cosmwasm_std::from_json::<cw_ica_controller::types::msg::QueryMsg>(q.to_string()).is_ok()
}

/// the documented form of every request conforms
pub fn requests(t: Tier) -> BoxedStrategy<JsonCase> {
    crate::direct::json_cases(t).prop_map(|c| JsonCase { form: 0, ..c }).boxed()
}
pub fn requests_check(c: &JsonCase) -> Obs {
    let mut o = Obs::default();
    let Ok(Some(w)) = World::new(&c.init) else { return o };
    let kind = match c.rq {
        Rq::Execute(_) => "execute",
        Rq::Instantiate(_) => "instantiate",
        Rq::Query(_) => "query",
        Rq::Migrate => return o,
    };
    let v = c.rq.value(&w);
    let (out, _) = c.rq.call(&w, v.to_string().as_bytes());
    if let Out::Rej(_) = out {
        o.class("refused");
        return o;
    }
    o.class(kind);
    o.nontrivial = true;
    let root = &api()[kind];
    if let Err(e) = validate(root, root, &v) {
        o.fail(format!("the accepted request {v} does not conform to the published schema: {e}"));
    }
    o
}

/// every answer conforms to the schema published for it
pub fn histories(t: Tier) -> BoxedStrategy<Hist> {
    hist::hists(Prof { own: 5, chan: 8, bad: 0, ..BASE }, t)
}
pub fn answers_check(h: &Hist) -> Obs {
    let mut o = Obs::default();
    let mut seen = std::collections::BTreeSet::new();
    let r = hist::run(h, |_| false, |w| {
        for q in ["get_channel", "get_contract_state", "ownership"] {
            let Out::Ok(v) = d::query(&w.st, &w.b, &json!({q:{}})) else { continue };
            let root = &api()["responses"][q];
            if root.is_null() {
                return Err(Viol { tags: vec!["C27"], text: format!("no schema is published for the answer to {q}") });
            }
            seen.insert(q);
            validate(root, root, &v).map_err(|e| Viol { tags: vec!["C27"], text: format!("the answer {v} to {q} does not conform to the published schema: {e}") })?;
        }
        Ok(())
    });
    for c in &seen {
        o.class(*c);
    }
    o.nontrivial = seen.contains("get_channel");
    if let Some(v) = r.viol {
        if v.tags.contains(&"C27") {
            o.fail(format!("step {}: {}", r.at, v.text));
        }
    }
    o
}
