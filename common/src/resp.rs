//! Host responses to queries: protobuf bytes and what the callback contract must be told.
use crate::b64;
use crate::gen::*;
use crate::pb::W;
use crate::queries::AQuery;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Exact(Value),
    Error,
    /// an error, or this: nothing may be left out
    ErrorOr(Value),
    /// malformed enough that nothing is promised about its reading
    Unspecified,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    Good,
    /// one of a few byte strings no protobuf message of the expected type can have
    Malformed(u8),
    /// the n-th amount/decimal is replaced by something not representable
    Bad(u8, String),
    /// the n-th delegation has no balance, the n-th validator no commission (a host always encodes them)
    Absent(u8),
}

/// Enough material to build a response to any query.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Seed {
    pub mode: Mode,
    pub present: bool,
    pub coins: Vec<Coin>,
    pub strs: Vec<String>,
    pub n: u64,
    pub data: Vec<u8>,
    pub rates: Vec<(String, String, String)>,
    pub units: Vec<(String, u32, Vec<String>)>,
    pub page: Option<(Vec<u8>, u64)>,
    pub unknown: bool,
    /// lists are repeated up to this length
    #[serde(default)]
    pub grow: u16,
}

impl Seed {
    fn s(&self, i: usize) -> &str {
        if self.strs.is_empty() {
            ""
        } else {
            &self.strs[i % self.strs.len()]
        }
    }
    fn coin0(&self) -> Coin {
        self.coins.first().cloned().unwrap_or(Coin { denom: "stake".into(), amount: "5".into() })
    }
    pub fn plain(n: u64) -> Seed {
        Seed {
            mode: Mode::Good,
            present: true,
            coins: vec![Coin { denom: "stake".into(), amount: n.to_string() }],
            strs: vec!["x".into()],
            n,
            data: vec![n as u8, 1],
            rates: vec![],
            units: vec![],
            page: None,
            unknown: false,
            grow: 0,
        }
    }
}
fn grown<T: Clone>(v: &[T], n: u16) -> Vec<T> {
    v.iter().cycle().take(v.len().max(if v.is_empty() { 0 } else { n as usize })).cloned().collect()
}

fn pageresp(p: &Option<(Vec<u8>, u64)>, w: W, f: u32) -> W {
    match p {
        None => w,
        Some((k, t)) => w.msg(f, W::new().bytes(1, k).uint(2, *t)),
    }
}

fn metadata(s: &Seed, i: usize) -> (W, Value) {
    let n = |k: usize| s.s(i * 7 + k).to_string();
    let mut w = W::new().str(1, &n(0));
    for (d, e, a) in &s.units {
        let mut u = W::new().str(1, d).uint(2, u64::from(*e));
        for x in a {
            u = u.len(3, x.as_bytes());
        }
        w = w.msg(2, u);
    }
    w = w.str(3, &n(1)).str(4, &n(2)).str(5, &n(3)).str(6, &n(4)).str(7, &n(5)).str(8, &n(6));
    let v = json!({"description":n(0),"base":n(1),"display":n(2),"name":n(3),"symbol":n(4),"uri":n(5),"uri_hash":n(6),
        "denom_units": s.units.iter().map(|(d,e,a)| json!({"denom":d,"exponent":e,"aliases":a})).collect::<Vec<_>>()});
    (w, v)
}

fn validator(s: &Seed, i: usize, r: &(String, String, String), absent: bool) -> (W, Value) {
    let addr = s.s(i).to_string();
    let mut w = W::new()
        .str(1, &addr)
        .msg(2, W::new().str(1, "/cosmos.crypto.ed25519.PubKey").bytes(2, &[10, 1, 7]))
        .uint(3, u64::from(i % 2 == 1))
        .uint(4, 3)
        .str(5, "1000000")
        .str(6, "1000000000000000000000000")
        .msg(7, W::new().str(1, "moniker").str(2, "id"))
        .uint(8, s.n)
        .msg(9, W::new().uint(1, s.n >> 8));
    if !absent {
        w = w.msg(10, W::new().msg(1, W::new().str(1, &r.0).str(2, &r.1).str(3, &r.2)).msg(2, W::new().uint(1, 1)));
    }
    w = w.str(11, "1");
    if absent {
        return (w, json!({"address":addr,"commission":"0","max_commission":"0","max_change_rate":"0"}));
    }
    let c = |x: &str| canon_dec(x).unwrap_or_else(|| x.to_string());
    let v = json!({"address":addr,"commission":c(&r.0),"max_commission":c(&r.1),"max_change_rate":c(&r.2)});
    (w, v)
}

fn delegation(s: &Seed, i: usize, c: &Coin, absent: bool) -> (W, Value) {
    let (d, v) = (s.s(2 * i).to_string(), s.s(2 * i + 1).to_string());
    let w = W::new().msg(1, W::new().str(1, &d).str(2, &v).str(3, "5000000000000000000"));
    if absent {
        return (w, json!({"delegator":d,"validator":v,"amount":{"denom":"","amount":"0"}}));
    }
    let w = w.msg(2, c.pb());
    (w, json!({"delegator":d,"validator":v,"amount":c.json()}))
}

/// (bytes, expectation) of the response to `q`
pub fn build(q: &AQuery, s: &Seed) -> (Vec<u8>, Expect) {
    if let Mode::Malformed(k) = &s.mode {
        let b: Vec<u8> = match k % 5 {
            0 => vec![0x0a, 0x05, 0x01],
            1 => vec![0x0f, 0x01],
            2 => vec![0x80],
            3 => vec![0x00],
            _ => vec![0x08, 0x01], // field 1 is length-delimited in every response
        };
        return match q {
            AQuery::Stargate { path, .. } => {
                let v = json!({"stargate":{"data":b64(&b),"path":path}});
                (b, Expect::Exact(v))
            }
            _ => (b, Expect::Error),
        };
    }
    // substitution of an unrepresentable amount
    let mut coins = grown(&s.coins, s.grow);
    let mut coin0 = s.coin0();
    let rates = if s.rates.is_empty() { vec![("100000000000000000".to_string(), "200000000000000000".to_string(), "0".to_string())] } else { s.rates.clone() };
    let mut rates = grown(&rates, s.grow);
    let absent = if let Mode::Absent(k) = s.mode { Some(k as usize) } else { None };
    let mut bad_coin = false;
    let mut bad_rate = false;
    if let Mode::Bad(i, x) = &s.mode {
        let i = *i as usize;
        coin0.amount = x.clone();
        if !coins.is_empty() {
            let k = i % coins.len();
            coins[k].amount = x.clone();
            bad_coin = true;
        }
        let k = i % rates.len();
        match (i / rates.len()) % 3 {
            0 => rates[k].0 = x.clone(),
            1 => rates[k].1 = x.clone(),
            _ => rates[k].2 = x.clone(),
        }
        bad_rate = true;
    }
    let bad0 = matches!(s.mode, Mode::Bad(..));
    let ex = |bad: bool, v: Value| if bad { Expect::Error } else { Expect::Exact(v) };
    let ab = |n: usize| absent.filter(|_| n > 0).map(|k| k % n);
    let or = |n: usize, e: Expect| match e {
        Expect::Exact(v) if absent.is_some() && n > 0 => Expect::ErrorOr(v),
        e => e,
    };
    let list_rates: &[(String, String, String)] = if s.present { &rates } else { &[] };
    let bad_rate_l = bad_rate && s.present;
    let (mut w, e) = match q {
        AQuery::Balance { .. } | AQuery::Supply { .. } => {
            let name = if matches!(q, AQuery::Balance { .. }) { "balance" } else { "supply" };
            if s.present {
                (W::new().msg(1, coin0.pb()), ex(bad0, json!({"bank":{name:{"amount":coin0.json()}}})))
            } else {
                (W::new(), Expect::Exact(json!({"bank":{name:{"amount":{"denom":"","amount":"0"}}}})))
            }
        }
        AQuery::AllBalances { .. } => {
            let mut w = W::new();
            for c in &coins {
                w = w.msg(1, c.pb());
            }
            (pageresp(&s.page, w, 2), ex(bad_coin, json!({"bank":{"all_balances":{"amount":coins.iter().map(Coin::json).collect::<Vec<_>>()}}})))
        }
        AQuery::DenomMetadata { .. } => {
            if s.present {
                let (w, v) = metadata(s, 0);
                (W::new().msg(1, w), Expect::Exact(json!({"bank":{"denom_metadata":{"metadata":v}}})))
            } else {
                let v = json!({"description":"","base":"","display":"","name":"","symbol":"","uri":"","uri_hash":"","denom_units":[]});
                (W::new(), Expect::Exact(json!({"bank":{"denom_metadata":{"metadata":v}}})))
            }
        }
        AQuery::AllDenomMetadata { .. } => {
            let mut w = W::new();
            let mut vs = vec![];
            for i in 0..coins.len() {
                let (m, v) = metadata(s, i);
                w = w.msg(1, m);
                vs.push(v);
            }
            let nk = s.page.as_ref().map(|(k, _)| b64(k));
            (pageresp(&s.page, w, 2), Expect::Exact(json!({"bank":{"all_denom_metadata":{"metadata":vs,"next_key":nk}}})))
        }
        AQuery::Stargate { path, .. } => return (s.data.clone(), Expect::Exact(json!({"stargate":{"data":b64(&s.data),"path":path}}))),
        AQuery::Smart { .. } => (W::new().bytes(1, &s.data), Expect::Exact(json!({"wasm":{"smart_contract_state":b64(&s.data)}}))),
        AQuery::Raw { .. } => {
            let v = if s.data.is_empty() { Value::Null } else { json!(b64(&s.data)) };
            (W::new().bytes(1, &s.data), Expect::Exact(json!({"wasm":{"raw_contract_state":v}})))
        }
        AQuery::ContractInfo { .. } => {
            if s.present {
                let (cr, ad, la, po) = (s.s(0), s.s(1), s.s(2), s.s(3));
                let i = W::new().uint(1, s.n).str(2, cr).str(3, ad).str(4, la).msg(5, W::new().uint(1, 9).uint(2, 3)).str(6, po);
                let o = |x: &str| if x.is_empty() { Value::Null } else { json!(x) };
                (
                    W::new().str(1, s.s(4)).msg(2, i),
                    Expect::Exact(json!({"wasm":{"contract_info":{"code_id":s.n,"creator":cr,"admin":o(ad),"pinned":false,"ibc_port":o(po)}}})),
                )
            } else {
                (W::new().str(1, s.s(4)), Expect::Exact(json!({"wasm":{"contract_info":null}})))
            }
        }
        AQuery::Validator { .. } => {
            if s.present {
                let k = if let Mode::Bad(i, _) = &s.mode { *i as usize % rates.len() } else { 0 };
                let (w, v) = validator(s, 0, &rates[k], absent.is_some());
                (W::new().msg(1, w), or(1, ex(bad_rate, json!({"staking":{"validator":{"validator":v}}}))))
            } else {
                (W::new(), Expect::Exact(json!({"staking":{"validator":{"validator":null}}})))
            }
        }
        AQuery::AllValidators => {
            let mut w = W::new();
            let mut vs = vec![];
            for (i, r) in list_rates.iter().enumerate() {
                let (m, v) = validator(s, i, r, ab(list_rates.len()) == Some(i));
                w = w.msg(1, m);
                vs.push(v);
            }
            (pageresp(&s.page, w, 2), or(list_rates.len(), ex(bad_rate_l, json!({"staking":{"all_validators":{"validators":vs}}}))))
        }
        AQuery::Delegation { .. } => {
            if s.present {
                let (w, v) = delegation(s, 0, &coin0, absent.is_some());
                (W::new().msg(1, w), or(1, ex(bad0, json!({"staking":{"delegation":{"delegation":v}}}))))
            } else {
                (W::new(), Expect::Exact(json!({"staking":{"delegation":{"delegation":null}}})))
            }
        }
        AQuery::AllDelegations { .. } => {
            let mut w = W::new();
            let mut vs = vec![];
            for (i, c) in coins.iter().enumerate() {
                let (m, v) = delegation(s, i, c, ab(coins.len()) == Some(i));
                w = w.msg(1, m);
                vs.push(v);
            }
            (pageresp(&s.page, w, 2), or(coins.len(), ex(bad_coin, json!({"staking":{"all_delegations":{"delegations":vs}}}))))
        }
        AQuery::BondedDenom => {
            if s.present {
                let d = s.s(0);
                let p = W::new().msg(1, W::new().uint(1, 1_814_400)).uint(2, 100).uint(3, 7).uint(4, s.n & 0xffff_ffff).str(5, d).str(6, "50000000000000000");
                (W::new().msg(1, p), Expect::Exact(json!({"staking":{"bonded_denom":{"denom":d}}})))
            } else {
                (W::new(), Expect::Error)
            }
        }
        _ => (W::new(), Expect::Unspecified),
    };
    if s.unknown {
        w = w.uint(1000, 7).len(1001, b"later field");
    }
    (w.0, e)
}

/// `next_key: ""` and `next_key: null` both say "no further page"
pub fn normalise(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if let Some(x) = m.get_mut("next_key") {
                if x == "" {
                    *x = Value::Null;
                }
            }
            m.values_mut().for_each(normalise);
        }
        Value::Array(a) => a.iter_mut().for_each(normalise),
        _ => {}
    }
}

/// The MsgModuleQuerySafeResponse to `queries` and the expected query result. `count` overrides the number of responses.
pub fn answer(queries: &[AQuery], seeds: &[Seed], height: u64, count: Option<usize>) -> (Vec<u8>, Expect) {
    let n = count.unwrap_or(queries.len());
    let mut w = W::new().uint(1, height);
    let mut vs = vec![];
    let mut bad = n != queries.len();
    let mut unspec = false;
    let mut or = false;
    let plain = Seed::plain(3);
    for i in 0..n {
        let s = if seeds.is_empty() { &plain } else { &seeds[i % seeds.len()] };
        let q = &queries[i.min(queries.len() - 1)];
        let (b, e) = build(q, s);
        w = w.len(2, &b);
        match e {
            Expect::Exact(v) => vs.push(v),
            Expect::ErrorOr(v) => {
                or = true;
                vs.push(v);
            }
            Expect::Error => bad = true,
            Expect::Unspecified => unspec = true,
        }
    }
    let e = if bad {
        Expect::Error
    } else if unspec {
        Expect::Unspecified
    } else {
        let mut v = json!({"success":{"height":height,"responses":vs}});
        normalise(&mut v);
        if or {
            Expect::ErrorOr(v)
        } else {
            Expect::Exact(v)
        }
    };
    (w.0, e)
}

/// Err(text) if the query result delivered does not meet the expectation
pub fn check_result(got: &Value, exp: &Expect) -> Result<(), String> {
    match exp {
        Expect::Unspecified => Ok(()),
        Expect::Error => {
            if got.get("error").is_some_and(Value::is_string) && got.as_object().unwrap().len() == 1 {
                Ok(())
            } else {
                Err(format!("expected an error query result, got {got}"))
            }
        }
        Expect::ErrorOr(v) => check_result(got, &Expect::Error).or_else(|_| check_result(got, &Expect::Exact(v.clone()))),
        Expect::Exact(v) => {
            let mut g = got.clone();
            normalise(&mut g);
            if &g == v {
                Ok(())
            } else {
                Err(format!("query result {g}, host answered {v}"))
            }
        }
    }
}

pub fn decs() -> BoxedStrategy<String> {
    prop_oneof![
        // as the host encodes LegacyDec on the wire: an integer
        4 => pick(vec!["0", "1", "100000000000000000", "1000000000000000000", "200000000000000000", "10000000000000000", "999999999999999999", "340282366920938463463"]).prop_map(String::from),
        3 => (0u64..=1_000_000_000_000_000_000).prop_map(|x| x.to_string()),
        2 => (0u128..=u128::MAX).prop_map(dec_of_atomics),
        1 => pick(vec!["0.1", "0.05", "1.5", "0.000000000000000001", "12.34"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn seeds() -> BoxedStrategy<Seed> {
    let bad = pick(
        ["", "-1", "abc", "1,5", "1..5", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999", " 1", "1 ", "0x10", "1e5", "-0.1", "NaN"]
            .into_iter()
            .map(String::from)
            .collect::<Vec<_>>(),
    );
    let mode = prop_oneof![
        12 => Just(Mode::Good),
        1 => any::<u8>().prop_map(Mode::Malformed),
        2 => (0u8..12, bad).prop_map(|(i, s)| Mode::Bad(i, s)),
        1 => (0u8..12).prop_map(Mode::Absent),
    ];
    (
        mode,
        proptest::bool::weighted(0.8),
        coins(4),
        proptest::collection::vec(strings(), 1..8),
        u64s(),
        bytes(),
        proptest::collection::vec((decs(), decs(), decs()), 0..4),
        proptest::collection::vec((denoms(), prop_oneof![0u32..20, any::<u32>()], proptest::collection::vec(strings(), 0..3)), 0..4),
        opt((bytes(), u64s()).boxed()),
        (proptest::bool::weighted(0.15), prop_oneof![25 => Just(0u16), 1 => lens(300).prop_map(|n| n as u16)]),
    )
        .prop_map(|(mode, present, coins, strs, n, data, rates, units, page, (unknown, grow))| Seed { mode, present, coins, strs, n, data, rates, units, page, unknown, grow })
        .boxed()
}
