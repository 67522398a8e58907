//! Value generators, biased to boundaries and to literals that occur in the sources under test (so that a value that
//! is treated specially somewhere is likely to be generated). Literals that are not in the committed baseline list get
//! extra weight. This only steers generation; no verdict depends on it.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<u128>,
    pub new_strs: Vec<String>,
    pub new_ints: Vec<u128>,
}

pub fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for e in v {
            if e.is_dir() {
                walk(&e, out);
            } else if e.extension().is_some_and(|x| x == "rs") {
                out.push(e);
            }
        }
    }
}

/// string and integer literals of a Rust source, comments skipped
fn lex(s: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<u128>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    t.push(match c[i] {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    });
                } else {
                    t.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if t.len() <= 80 {
                strs.insert(t);
            }
        } else if c[i] == '\'' {
            // char literal (or lifetime)
            if c.get(i + 2) == Some(&'\'') && c[i + 1] != '\\' {
                strs.insert(c[i + 1].to_string());
                i += 3;
            } else if c.get(i + 1) == Some(&'\\') {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                t.push(c[i]);
                i += 1;
            }
            let t = t.replace('_', "");
            let v = if let Some(h) = t.strip_prefix("0x") {
                u128::from_str_radix(h, 16).ok()
            } else {
                let d: String = t.chars().take_while(char::is_ascii_digit).collect();
                d.parse().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
            }
        } else if c[i].is_alphabetic() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

pub fn scan() -> (BTreeSet<String>, BTreeSet<u128>) {
    let (mut strs, mut ints) = (BTreeSet::new(), BTreeSet::new());
    for d in ["src", "derive/src", "testing/contracts"] {
        let mut fs = vec![];
        walk(&std::path::Path::new(&repo()).join(d), &mut fs);
        for f in fs {
            if f.components().any(|c| c.as_os_str() == "target") {
                continue;
            }
            if let Ok(s) = std::fs::read_to_string(&f) {
                lex(&s, &mut strs, &mut ints);
            }
        }
    }
    (strs, ints)
}

const BASE: &str = include_str!("../baseline_literals.json");

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (strs, ints) = scan();
        let base: (BTreeSet<String>, BTreeSet<String>) = serde_json::from_str(BASE).unwrap();
        let mut ni = BTreeSet::new();
        for v in &ints {
            if !base.1.contains(&v.to_string()) {
                ni.insert(*v);
            }
        }
        let ns: Vec<String> = strs.iter().filter(|s| !base.0.contains(*s)).take(200).cloned().collect();
        // the dictionary proper is the committed baseline (so that generation on an unchanged vocabulary does not
        // depend on the tree), plus what is new
        Dict {
            strs: base.0.into_iter().collect(),
            ints: base.1.iter().map(|s| s.parse().unwrap()).collect(),
            new_strs: ns,
            new_ints: ni.into_iter().take(200).collect(),
        }
    })
}

pub fn pick<T: Clone + std::fmt::Debug + 'static>(v: Vec<T>) -> BoxedStrategy<T> {
    proptest::sample::select(v).boxed()
}

/// u64 with boundary and dictionary bias
pub fn u64s() -> BoxedStrategy<u64> {
    let d = dict();
    let mut b: Vec<u64> = vec![0, 1, 2, 3, 7, 10, 63, 64, 99, 100, 127, 128, 255, 256, 300, 1000];
    for k in [16u32, 31, 32, 53, 63] {
        let x = 1u64 << k;
        b.extend([x - 1, x, x + 1]);
    }
    b.extend([u64::MAX, u64::MAX - 1, 1_000_000_000, 9_999_999_999, 10u64.pow(18), 10u64.pow(19)]);
    let mut near: Vec<u64> = vec![];
    for v in &d.ints {
        if let Ok(v) = u64::try_from(*v) {
            near.extend([v, v.saturating_add(1), v.saturating_sub(1)]);
        }
    }
    let mut arms: Vec<(u32, BoxedStrategy<u64>)> = vec![
        (4, pick(b)),
        (2, pick(near)),
        (4, (0u64..50).boxed()),
        (2, any::<u64>().boxed()),
        (2, (0u32..64, any::<u64>()).prop_map(|(k, x)| x >> k).boxed()),
    ];
    let new: Vec<u64> = d
        .new_ints
        .iter()
        .filter_map(|v| u64::try_from(*v).ok())
        .flat_map(|v| [v, v.saturating_add(1), v.saturating_sub(1), v.saturating_mul(2)])
        .collect();
    if !new.is_empty() {
        arms.push((4, pick(new)));
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}

/// decimal string of a u128
pub fn amounts() -> BoxedStrategy<String> {
    let d = dict();
    let mut b: Vec<u128> = vec![0, 1, 2, 9, 10, 99, 100, 1000, 1_000_000, 10u128.pow(18), 10u128.pow(27)];
    for k in [31u32, 32, 53, 63, 64, 65, 96, 127] {
        let x = 1u128 << k;
        b.extend([x - 1, x, x + 1]);
    }
    b.extend([u128::MAX, u128::MAX - 1]);
    b.extend(d.ints.iter().copied());
    let mut arms: Vec<(u32, BoxedStrategy<u128>)> = vec![
        (4, pick(b)),
        (3, (0u128..1_000_000).boxed()),
        (3, (0u32..128, any::<u128>()).prop_map(|(k, x)| x >> k).boxed()),
    ];
    if !d.new_ints.is_empty() {
        arms.push((3, pick(d.new_ints.iter().flat_map(|v| [*v, v.saturating_add(1), v.saturating_sub(1)]).collect())));
    }
    proptest::strategy::Union::new_weighted(arms).prop_map(|x: u128| x.to_string()).boxed()
}

fn dict_str() -> BoxedStrategy<String> {
    let d = dict();
    let mut arms: Vec<(u32, BoxedStrategy<String>)> = vec![(2, pick(d.strs.clone()))];
    if !d.new_strs.is_empty() {
        arms.push((6, pick(d.new_strs.clone())));
        // embedded
        arms.push((
            2,
            (pick(d.new_strs.clone()), "[a-z0-9]{0,3}", any::<bool>())
                .prop_map(|(s, x, pre)| if pre { format!("{x}{s}") } else { format!("{s}{x}") })
                .boxed(),
        ));
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}

/// addresses and ids that mean something to the system under test (set by the harness), so that unrelated fields coincide
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
pub const ACCOUNT: &str = "cosmos1hostaccount";
pub fn known() -> BoxedStrategy<String> {
    let mut v = vec![ACCOUNT.to_string()];
    v.extend(KNOWN.get().into_iter().flatten().cloned());
    prop_oneof![1 => Just(ACCOUNT.to_string()), 1 => pick(v)].boxed()
}

/// arbitrary strings with typical, empty, unicode, JSON-hostile, long and dictionary values
pub fn strings() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,8}[0-9]{0,3}",
        2 => Just(String::new()),
        3 => dict_str(),
        2 => "[ -~]{0,24}",
        1 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => pick(vec!["\"".into(), "\\".into(), "\u{0}".into(), "\n\t\r".into(), "null".into(), "{\"a\":1}".into(), "é".into(), "日本語🎉".into(), "\u{7f}\u{80}\u{ffff}".into(), " leading and trailing ".into(), "%00%s%n".into(), "a/b.c-d_e:f".into(), "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2".into(), "factory/cosmos1abc/utoken".into(), "ABC".into()]),
        1 => (30usize..400, "[a-zA-Z]").prop_map(|(n, s)| s.repeat(n)),
        1 => (lens(5000), "[a-z0-9]").prop_map(|(n, s)| s.repeat(n)),
        1 => prop_oneof![known(), pick(vec!["channel-0".to_string(), "channel-1".into(), "connection-0".into(), "connection-1".into(), "icahost".into(), "transfer".into()])],
    ]
    .boxed()
}

/// lengths: powers of two and their neighbours, numbers in the sources and their neighbours
pub fn lens(max: usize) -> BoxedStrategy<usize> {
    let d = dict();
    let mut v: Vec<usize> = vec![1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097];
    for i in d.ints.iter().chain(&d.new_ints) {
        if *i <= max as u128 {
            v.extend([*i as usize, *i as usize + 1, (*i as usize).saturating_sub(1)]);
        }
    }
    v.retain(|x| *x <= max);
    let mut arms: Vec<(u32, BoxedStrategy<usize>)> = vec![(1, pick(v))];
    let n: Vec<usize> = d.new_ints.iter().filter(|i| **i <= max as u128).flat_map(|i| [*i as usize, *i as usize + 1, (*i as usize).saturating_sub(1)]).filter(|x| *x <= max).collect();
    if !n.is_empty() {
        arms.push((2, pick(n)));
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}

/// lists: mostly small, sometimes dozens, rarely of a boundary size up to `max`
pub fn list<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>, max: usize) -> BoxedStrategy<Vec<T>> {
    let t = s.clone();
    let u = s.clone();
    prop_oneof![
        // repeated elements
        2 => (proptest::collection::vec(u, 1..=4usize.min(max).max(1)), any::<[u8; 3]>()).prop_map(move |(mut v, d)| {
            for k in d {
                if v.len() < max {
                    let x = v[k as usize % v.len()].clone();
                    v.insert(if k & 128 == 0 { v.len() } else { (k as usize / 8) % (v.len() + 1) }, x);
                }
            }
            v.truncate(max);
            v
        }),
        12 => proptest::collection::vec(s.clone(), 0..=4usize.min(max)),
        3 => proptest::collection::vec(s, 0..=max.min(40)),
        1 => lens(max).prop_flat_map(move |n| proptest::collection::vec(t.clone(), n)),
    ]
    .boxed()
}

/// address-like strings; the contract must carry them verbatim
pub fn addrs() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "(cosmos|osmo|juno|neutron|cosmosvaloper)1[02-9ac-hj-np-z]{38}",
        3 => "(cosmos|wasm|val)1[a-z0-9]{1,4}",
        2 => known(),
        2 => strings(),
    ]
    .boxed()
}

pub fn denoms() -> BoxedStrategy<String> {
    prop_oneof![
        5 => pick(vec!["uatom".to_string(), "stake".into(), "uosmo".into(), "ibc/ABCDEF".into(), "factory/a/b".into()]),
        2 => strings(),
    ]
    .boxed()
}

pub fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(vec![]),
        3 => proptest::collection::vec(any::<u8>(), 0..24),
        2 => "[ -~]{0,30}".prop_map(String::into_bytes),
        1 => strings().prop_map(String::into_bytes),
        2 => pick(vec![b"{}".to_vec(), b"{\"increment\":{}}".to_vec(), b"null".to_vec(), vec![0], vec![0xff; 3], vec![0x0a, 0x00]]),
        1 => (any::<u8>(), prop_oneof![100usize..400, lens(5000)]).prop_map(|(b, n)| vec![b; n]),
    ]
    .boxed()
}

pub fn coins(max: usize) -> BoxedStrategy<Vec<Coin>> {
    prop_oneof![
        40 => proptest::collection::vec(coin(), 0..=max),
        1 => lens(140).prop_flat_map(|n| proptest::collection::vec(coin(), n)),
    ]
    .boxed()
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Coin {
    pub denom: String,
    pub amount: String,
}
impl Coin {
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"denom": self.denom, "amount": self.amount})
    }
    pub fn pb(&self) -> crate::pb::W {
        crate::pb::W::new().str(1, &self.denom).str(2, &self.amount)
    }
}
pub fn coin() -> BoxedStrategy<Coin> {
    (denoms(), amounts()).prop_map(|(denom, amount)| Coin { denom, amount }).boxed()
}
pub fn opt<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Option<T>> {
    proptest::option::weighted(0.6, s).boxed()
}

/// canonical form of a non-negative decimal string: no superfluous zeros
pub fn canon_dec(s: &str) -> Option<String> {
    let mut it = s.splitn(2, '.');
    let w = it.next()?;
    let f = it.next().unwrap_or("");
    if w.is_empty() || !w.chars().all(|c| c.is_ascii_digit()) || !f.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let w = w.trim_start_matches('0');
    let w = if w.is_empty() { "0" } else { w };
    let f = f.trim_end_matches('0');
    Some(if f.is_empty() { w.to_string() } else { format!("{w}.{f}") })
}
/// canonical decimal string of an 18-decimals fixed point number
pub fn dec_of_atomics(a: u128) -> String {
    let w = a / 10u128.pow(18);
    let f = a % 10u128.pow(18);
    canon_dec(&format!("{w}.{f:018}")).unwrap()
}
