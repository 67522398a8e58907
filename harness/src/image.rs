//! Storage in the layout of the released contract, written and read without the code under test.
use crate::driver::Store;
use crate::sim::{St, World};
use serde_json::{json, Value};

pub fn pending_key(chan: &str, seq: u64) -> Vec<u8> {
    let mut k = vec![0, 15];
    k.extend_from_slice(b"pending_queries");
    k.extend_from_slice(&(chan.len() as u16).to_be_bytes());
    k.extend_from_slice(chan.as_bytes());
    k.extend_from_slice(&seq.to_be_bytes());
    k
}
pub fn paths(q: &[vcommon::queries::AQuery]) -> Value {
    Value::Array(q.iter().map(|q| json!([q.path(), matches!(q, vcommon::queries::AQuery::Stargate { .. })])).collect())
}

/// the items a released contract in this situation has in storage
pub fn items(w: &World) -> Vec<(Vec<u8>, Value)> {
    let m = &w.m;
    let mut v: Vec<(Vec<u8>, Value)> = vec![
        (
            b"ownership".to_vec(),
            json!({"owner":m.owner,"pending_owner":m.pending.as_ref().map(|p|p.0.clone()),
                "pending_expiry":m.pending.as_ref().and_then(|p|p.1.as_ref()).map(crate::sim::Exp::json)}),
        ),
        (
            b"state".to_vec(),
            json!({"ica_info":m.ica.as_ref().map(|(a,c)|json!({"ica_address":a,"channel_id":c,"encoding":"proto3"})),"callback_address":m.cb}),
        ),
        (b"channel_open_init_options".to_vec(), m.opts.json()),
    ];
    if let Some((c, open)) = &m.tracked {
        v.push((b"ica_channel".to_vec(), json!({"channel":c,"channel_status":if *open {"STATE_OPEN"} else {"STATE_CLOSED"}})));
    }
    for c in w.chans.values() {
        for (s, p) in &c.pkts {
            if !p.queries.is_empty() {
                v.push((pending_key(&c.id, *s), paths(&p.queries)));
            }
        }
    }
    v
}

pub fn render(w: &World) -> Store {
    let mut s = Store::default();
    for (k, v) in items(w) {
        s.0.insert(k, v.to_string().into_bytes());
    }
    let (name, ver) = crate::sim::contract_info();
    s.0.insert(b"contract_info".to_vec(), json!({"contract":name,"version":ver}).to_string().into_bytes());
    s.0.insert(b"allow_channel_open_init".to_vec(), b"false".to_vec());
    if w.chans.values().any(|c| c.st == St::Closed) {
        s.0.insert(b"allow_channel_close_init".to_vec(), b"false".to_vec());
    }
    s
}

fn strip_null(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), strip_null(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip_null).collect()),
        x => x.clone(),
    }
}

/// is the storage in the released layout?
pub fn check(w: &World) -> Result<(), String> {
    let get = |k: &[u8]| w.st.0.get(k).and_then(|b| serde_json::from_slice::<Value>(b).ok());
    for (k, want) in items(w) {
        let got = get(&k);
        if got.as_ref().map(strip_null) != Some(strip_null(&want)) {
            return Err(format!("storage item {:?} holds {:?}, the released layout has {want}", String::from_utf8_lossy(&k), w.st.0.get(&k).map(|b| String::from_utf8_lossy(b).to_string())));
        }
    }
    let (name, ver) = crate::sim::contract_info();
    if get(b"contract_info") != Some(json!({"contract":name,"version":ver})) {
        return Err(format!("contract_info holds {:?}", get(b"contract_info")));
    }
    for k in ["allow_channel_open_init", "allow_channel_close_init"] {
        match w.st.0.get(k.as_bytes()).map(Vec::as_slice) {
            None | Some(b"false") => {}
            x => return Err(format!("{k} holds {x:?} between transactions")),
        }
    }
    Ok(())
}

/// semantic version, strictly parsed: (major, minor, patch, prerelease identifiers)
fn parse_semver(s: &str) -> Option<([u64; 3], Option<Vec<String>>)> {
    let (core, build) = match s.split_once('+') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let ids = |t: &str, num: bool| -> Option<Vec<String>> {
        t.split('.')
            .map(|i| {
                let ok = !i.is_empty() && i.chars().all(|c| c.is_ascii_alphanumeric() || c == '-');
                let lead = num && i.len() > 1 && i.starts_with('0') && i.chars().all(|c| c.is_ascii_digit());
                (ok && !lead).then(|| i.to_string())
            })
            .collect()
    };
    if let Some(b) = build {
        ids(b, false)?;
    }
    let (nums, pre) = match core.split_once('-') {
        Some((a, b)) => (a, Some(ids(b, true)?)),
        None => (core, None),
    };
    let mut out = [0u64; 3];
    let parts: Vec<&str> = nums.split('.').collect();
    if parts.len() != 3 {
        return None;
    }
    for (i, p) in parts.iter().enumerate() {
        if p.is_empty() || !p.chars().all(|c| c.is_ascii_digit()) || (p.len() > 1 && p.starts_with('0')) {
            return None;
        }
        out[i] = p.parse().ok()?;
    }
    Some((out, pre))
}
/// is `a` a semantic version of lower precedence than `b`?
pub fn semver_lower(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (parse_semver(a), parse_semver(b)) else { return false };
    if x.0 != y.0 {
        return x.0 < y.0;
    }
    match (x.1, y.1) {
        (None, _) => false,
        (Some(_), None) => true,
        (Some(p), Some(q)) => {
            for i in 0..p.len().max(q.len()) {
                match (p.get(i), q.get(i)) {
                    (None, Some(_)) => return true,
                    (Some(_), None) => return false,
                    (Some(a), Some(b)) if a != b => {
                        return match (a.parse::<u128>(), b.parse::<u128>()) {
                            (Ok(a), Ok(b)) => a < b,
                            (Ok(_), Err(_)) => true,
                            (Err(_), Ok(_)) => false,
                            _ => a < b,
                        }
                    }
                    _ => {}
                }
            }
            false
        }
    }
}
