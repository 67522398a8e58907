//! Generated histories, run in lockstep with the model.
use crate::meta::{self, Meta};
use crate::sim::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use vcommon::gen::*;
use vcommon::msgs::AMsg;
use vcommon::queries::AQuery;
use vcommon::resp::{self, Seed};
use vcommon::runner::{Obs, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub init: Init,
    pub ops: Vec<Op>,
    /// JSON form of the requests, 0 for the canonical one
    pub form: u64,
    /// openings and closings the contract asks for are delivered as steps of their own
    #[serde(default)]
    pub detached: bool,
}

/// relative frequency of the kinds of steps
#[derive(Clone, Copy)]
pub struct Prof {
    pub own: u32,
    pub chan: u32,
    pub send: u32,
    pub query: u32,
    pub answer: u32,
    pub timeout: u32,
    pub cbset: u32,
    pub bad: u32,
    pub migrate: u32,
    pub image: u32,
    pub burst: u32,
    pub rich: bool,
    pub cb_fail: u32,
    /// share (of 10) of histories on unordered channels only
    pub unordered: u32,
    /// share (of 10) of histories in which the callback contract owns the controller
    pub cb_owns: u32,
    /// entry-level histories
    pub detached: bool,
}
pub const BASE: Prof = Prof { own: 3, chan: 4, send: 3, query: 3, answer: 5, timeout: 2, cbset: 2, bad: 2, migrate: 1, image: 0, burst: 1, rich: false, cb_fail: 1, unordered: 3, cb_owns: 1, detached: false };

pub fn conns() -> BoxedStrategy<String> {
    prop_oneof![
        6 => pick(vec!["connection-0".to_string(), "connection-1".into(), "connection-7".into()]),
        1 => Just("connection-99".to_string()),
        1 => u64s().prop_map(|n| format!("connection-{}", n % 1_000_000)),
    ]
    .boxed()
}
pub fn opts() -> BoxedStrategy<Opts> {
    (
        conns(),
        prop_oneof![4 => pick(vec!["connection-0".to_string(), "connection-1".into(), "connection-5".into()]), 1 => strings()],
        prop_oneof![6 => Just(None), 3 => Just(Some("icahost".to_string())), 1 => prop_oneof![3 => pick(vec!["icahost2".to_string(), "transfer".into(), "ICAHOST".into()]), 1 => strings()].prop_map(Some)],
        prop_oneof![3 => Just(None), 3 => Just(Some(true)), 3 => Just(Some(false))],
    )
        .prop_map(|(conn, host, port, order)| Opts { conn, host, port, order })
        .boxed()
}
fn arg() -> BoxedStrategy<Arg> {
    prop_oneof![8 => (0u8..8).prop_map(Arg::Actor), 1 => Just(Arg::Contract), 1 => Just(Arg::Owner), 2 => any::<u8>().prop_map(Arg::Bad)].boxed()
}
fn cbarg() -> BoxedStrategy<Arg> {
    prop_oneof![2 => Just(Arg::None), 6 => (4u8..8).prop_map(Arg::Actor), 1 => Just(Arg::Owner), 1 => any::<u8>().prop_map(Arg::Bad)].boxed()
}
fn who() -> BoxedStrategy<Who> {
    prop_oneof![
        14 => Just(Who::Owner),
        2 => Just(Who::Pending),
        1 => Just(Who::Prev),
        1 => Just(Who::Cb),
        1 => Just(Who::Creator),
        1 => Just(Who::Contract),
        2 => (0u8..8).prop_map(Who::Actor),
    ]
    .boxed()
}
pub fn timeouts() -> BoxedStrategy<Option<u64>> {
    prop_oneof![3 => Just(None), 3 => (1u64..100_000).prop_map(Some), 2 => u64s().prop_map(Some), 1 => pick(vec![Some(0), Some(18_446_744_073), Some(18_446_744_074), Some(u64::MAX)])].boxed()
}
fn memos() -> BoxedStrategy<Option<String>> {
    prop_oneof![3 => Just(None), 2 => strings().prop_map(Some)].boxed()
}
pub fn send(rich: bool, q: bool) -> BoxedStrategy<Send> {
    let m = if rich { vcommon::msgs::supported() } else { vcommon::msgs::simple() };
    let m: BoxedStrategy<AMsg> = prop_oneof![15 => m, 1 => vcommon::msgs::unsupported()].boxed();
    let qs = if rich { vcommon::queries::supported() } else { vcommon::queries::simple() };
    let qs: BoxedStrategy<AQuery> = prop_oneof![15 => qs, 1 => vcommon::queries::unsupported()].boxed();
    let lo = usize::from(q);
    (proptest::collection::vec(m, 0..3), proptest::collection::vec(qs, lo..if q { 4 } else { 1 }), memos(), prop_oneof![4 => Just(None), 1 => timeouts()])
        .prop_map(|(msgs, queries, memo, timeout)| Send { msgs, queries, memo, timeout })
        .boxed()
}
/// batches of any size
pub fn rich_send() -> BoxedStrategy<Send> {
    let m: BoxedStrategy<AMsg> = prop_oneof![60 => vcommon::msgs::supported(), 1 => vcommon::msgs::unsupported()].boxed();
    let q: BoxedStrategy<AQuery> = prop_oneof![60 => vcommon::queries::supported(), 1 => vcommon::queries::unsupported()].boxed();
    (list(m, 150), prop_oneof![1 => Just(vec![]), 2 => list(q, 150)], memos(), timeouts())
        .prop_map(|(msgs, queries, memo, timeout)| Send { msgs, queries, memo, timeout })
        .boxed()
}
/// query batches of any size, supported ones only
pub fn rich_queries() -> BoxedStrategy<Send> {
    (prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(vcommon::msgs::simple(), 0..3)], list(vcommon::queries::supported(), 60), memos())
        .prop_map(|(msgs, queries, memo)| Send { msgs, queries, memo, timeout: None })
        .boxed()
}
fn ack_text() -> BoxedStrategy<Vec<u8>> {
    let t = pick(vec![
        "{\"result\":\"AQ==\"}".to_string(),
        "{\"error\":\"ABCI code: 5: error handling packet\"}".into(),
        "{\"result\":\"EgIKAA==\"}".into(),
        "{\"error\":\"\"}".into(),
        "{\"result\":\"\"}".into(),
        "{\"result\":\"AQ==\",\"error\":\"x\"}".into(),
        "{\"result\":\"AQ==\",\"result\":\"AQ==\"}".into(),
        "[{\"result\":\"AQ==\"}]".into(),
        "{\"result\":{\"result\":\"AQ==\"}}".into(),
        "\"error\"".into(),
    ]);
    let edit = (any::<u16>(), 0u8..4, prop_oneof![pick(b"{}[]\":,= \n\t\\x0tn".to_vec()), any::<u8>()]);
    let mutated = (t, proptest::collection::vec(edit, 0..4)).prop_map(|(t, es)| {
        let mut b = t.into_bytes();
        for (pos, k, c) in es {
            let i = pos as usize % (b.len() + 1);
            match k {
                0 => b.insert(i, c),
                1 if i < b.len() => {
                    b.remove(i);
                }
                2 if i < b.len() => b[i] = c,
                _ => b.truncate(i.max(b.len() / 2)),
            }
        }
        b
    });
    prop_oneof![5 => mutated, 1 => bytes(), 1 => strings().prop_map(|s| serde_json::json!({s: "AQ=="}).to_string().into_bytes())].boxed()
}
fn exp() -> BoxedStrategy<ExpSpec> {
    prop_oneof![
        3 => Just(ExpSpec::None),
        1 => Just(ExpSpec::Never),
        4 => (-2i8..6).prop_map(ExpSpec::Height),
        4 => (-20i32..60).prop_map(ExpSpec::Time),
        1 => u64s().prop_map(ExpSpec::AbsHeight),
        1 => u64s().prop_map(ExpSpec::AbsTime),
    ]
    .boxed()
}
pub fn ex(p: Prof) -> BoxedStrategy<Ex> {
    let mut v: Vec<(u32, BoxedStrategy<Ex>)> = vec![
        (p.chan.div_ceil(2), prop_oneof![1 => Just(None), 2 => opts().prop_map(Some)].prop_map(Ex::Create).boxed()),
        (p.chan.div_ceil(3), Just(Ex::Close).boxed()),
        (p.send, send(p.rich, false).prop_map(Ex::Send).boxed()),
        (p.query, send(p.rich, true).prop_map(Ex::Send).boxed()),
        (p.cbset, cbarg().prop_map(Ex::SetCb).boxed()),
        (p.own, (arg(), exp()).prop_map(|(a, e)| Ex::Transfer(a, e)).boxed()),
        (p.own, Just(Ex::Accept).boxed()),
        (p.own.div_ceil(4), Just(Ex::Renounce).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    Union::new_weighted(v).boxed()
}
fn cbmode(p: Prof) -> BoxedStrategy<CbMode> {
    prop_oneof![
        6 => Just(CbMode::Ok),
        p.cb_fail => Just(CbMode::Fail),
        p.cb_fail => (proptest::collection::vec(ex(p), 1..3), any::<bool>()).prop_map(|(ops, catch)| CbMode::Reenter { ops, catch }),
    ]
    .boxed()
}
pub fn ack(p: Prof) -> BoxedStrategy<AckSpec> {
    let seed: BoxedStrategy<Seed> = if p.rich { resp::seeds() } else { prop_oneof![8 => (1u64..60).prop_map(Seed::plain), 1 => resp::seeds()].boxed() };
    prop_oneof![
        10 => (u64s(), proptest::collection::vec(seed, 0..4), prop_oneof![9 => Just(None), 1 => any::<u8>().prop_map(Some)])
            .prop_map(|(height, seeds, count)| AckSpec::Good { height, seeds, count }),
        2 => bytes().prop_map(AckSpec::Raw),
        3 => strings().prop_map(AckSpec::Error),
        1 => any::<u8>().prop_map(AckSpec::BadTx),
        p.bad.div_ceil(2) => any::<u8>().prop_map(AckSpec::Garbage),
        p.bad.div_ceil(2) => ack_text().prop_map(AckSpec::Text),
    ]
    .boxed()
}
pub fn versions() -> BoxedStrategy<String> {
    let (_, cur) = contract_info();
    let mut l: Vec<String> = ["0.0.1", "0.1.0", "0.1.3", "0.4.2", "0.5.0", "0.19.0", "0.9.9", "0.10.0", "0.2.0", "1.0.0", "100.0.0", "0.20.1", "0.21.0", "0.20", "", "v0.1.0", "0.1", "0.1.0.0", "abc", "0.01.0", "00.1.0", "0.20.0-rc.1",
        "0.20.0-alpha", "0.20.0+build", "0.19.0+build", "0.19.9-rc1", " 0.1.0", "0.1.0 ", "-1.0.0", "0.0.0", "0.0.0-0", "0.20.1-rc1", "18446744073709551615.0.0", "18446744073709551616.0.0", "0.1.0-", "0.1.0-a..b", "0.1.0-01", "１.0.0"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    l.push(cur);
    prop_oneof![6 => pick(l), 2 => (0u64..3, 0u64..30, 0u64..12).prop_map(|(a, b, c)| format!("{a}.{b}.{c}")), 1 => (0u64..2, 18u64..22, 0u64..3, "[a-z0-9.-]{1,6}").prop_map(|(a, b, c, d)| format!("{a}.{b}.{c}-{d}")), 1 => strings()].boxed()
}
pub fn recs() -> BoxedStrategy<Rec> {
    prop_oneof![
        10 => versions().prop_map(Rec::Version),
        2 => (prop_oneof![pick(vec!["crates.io:cw-ica-controller".to_string(), "cw-ica-controller".into(), "crates.io:cw-ica-controller2".into(), "crates.io:CW-ica-controller".into(), "crates.io:cw20-base".into(), "".into()]), strings()], versions()).prop_map(|(n, v)| Rec::Name(n, v)),
        1 => Just(Rec::Missing),
        1 => bytes().prop_map(Rec::Garbage),
    ]
    .boxed()
}
fn op(p: Prof) -> BoxedStrategy<Op> {
    let metas = || -> BoxedStrategy<Meta> { prop_oneof![5 => meta::good(), 1 => meta::any_meta()].boxed() };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (3 * (p.own + p.send + p.query + p.cbset + p.chan).div_ceil(3), (who(), ex(p), proptest::bool::weighted(0.05)).prop_map(|(who, x, funds)| Op::Exec { who, x, funds }).boxed()),
        (p.chan, (any::<u8>(), metas(), cbmode(p), 0u8..3).prop_map(|(sel, meta, cb, relay_port)| Op::OpenAck { sel, meta, cb, relay_port }).boxed()),
        (p.chan.div_ceil(2), cbmode(p).prop_map(|cb| Op::Connect { cb }).boxed()),
        (p.chan.div_ceil(2), (any::<u8>(), prop_oneof![2 => Just(None), 2 => opts().prop_map(Some)]).prop_map(|(how, opts)| Op::Cycle { how, opts }).boxed()),
        (p.chan.div_ceil(2), any::<u8>().prop_map(|sel| Op::CloseConfirm { sel }).boxed()),
        (p.chan.div_ceil(3), any::<u8>().prop_map(|sel| Op::RelayClose { sel }).boxed()),
        (p.chan.div_ceil(3), (prop_oneof![3 => Just(None), 1 => strings().prop_map(Some)], conns(), any::<bool>(), metas()).prop_map(|(port, conn, ordered, meta)| Op::RelayInit { port, conn, ordered, meta }).boxed()),
        (p.answer, (any::<u8>(), ack(p), prop_oneof![9 => 0u8..8, 1 => Just(200u8)], cbmode(p), proptest::bool::weighted(0.2)).prop_map(|(sel, ack, relayer, cb, space)| Op::Ack { sel, ack, relayer, cb, space }).boxed()),
        (p.timeout, (any::<u8>(), 0u8..8, cbmode(p)).prop_map(|(sel, relayer, cb)| Op::Timeout { sel, relayer, cb }).boxed()),
        (p.own.div_ceil(2).max(1), (0u16..4, prop_oneof![(0u64..40).prop_map(|s| s * 1_000_000_000), 0u64..3, any::<u32>().prop_map(u64::from)]).prop_map(|(dh, dt)| Op::Tick { dh, dt }).boxed()),
        (p.bad.div_ceil(4), (conns(), any::<bool>(), metas()).prop_map(|(conn, ordered, meta)| Op::OpenTry { conn, ordered, meta }).boxed()),
        (p.bad.div_ceil(4), any::<u8>().prop_map(|sel| Op::OpenConfirm { sel }).boxed()),
        (p.bad.div_ceil(4), (any::<bool>(), any::<u8>()).prop_map(|(init, kind)| Op::ForeignClose { init, kind }).boxed()),
        (p.bad.div_ceil(4), (any::<u8>(), bytes()).prop_map(|(sel, data)| Op::Recv { sel, data }).boxed()),
        (p.bad.div_ceil(4), (prop_oneof![2u64..12, u64s()], any::<bool>(), opt(prop_oneof![bytes(), Just(vec![8, 1])].boxed())).prop_map(|(id, ok, data)| Op::BadReply { id, ok, data }).boxed()),
        (p.migrate, (recs(), proptest::bool::weighted(0.1)).prop_map(|(rec, json_enc)| Op::Migrate { rec, json_enc }).boxed()),
        (if p.detached { p.chan * 2 } else { 0 }, proptest::bool::weighted(0.25).prop_map(|close| Op::Deliver { close }).boxed()),
        (p.image, Just(Op::Reimage).boxed()),
        (p.own.div_ceil(2), (0u8..8).prop_map(|to| Op::Handover { to }).boxed()),
        (p.burst, (prop_oneof![6 => 1u16..6, 2 => 6u16..20, 1 => lens(130).prop_map(|n| n as u16)], proptest::collection::vec(prop_oneof![send(false, false), send(false, true)], 1..4)).prop_map(|(n, sends)| Op::Burst { n, sends }).boxed()),
        (p.burst, (proptest::collection::vec(any::<u8>(), 1..8), proptest::collection::vec((ack(p), proptest::bool::weighted(0.2)), 1..4)).prop_map(|(sels, acks)| Op::Drain { sels, acks }).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    Union::new_weighted(v).boxed()
}
pub fn init() -> BoxedStrategy<Init> {
    init_of(BASE)
}
pub fn init_of(p: Prof) -> BoxedStrategy<Init> {
    let time = prop_oneof![8 => (1_600_000_000u64..1_900_000_000).prop_map(|s| s * 1_000_000_000 + 7), 1 => Just(0u64), 1 => Just(u64::MAX - 600_000_000_000), 1 => any::<u64>()];
    (
        (0u8..4, prop_oneof![4 => Just(Arg::None), 6 => (0u8..8).prop_map(Arg::Actor), 1 => any::<u8>().prop_map(Arg::Bad)], prop_oneof![2 => Just(Arg::None), 8 => (4u8..8).prop_map(Arg::Actor), 1 => any::<u8>().prop_map(Arg::Bad)]),
        (opts(), prop_oneof![8 => 1u64..10_000, 1 => u64s()], time),
        (proptest::bool::weighted(f64::from(p.unordered) / 10.0), proptest::bool::weighted(f64::from(p.cb_owns) / 10.0)),
        (prop_oneof![6 => Just(1u64), 1 => (0u64..300).prop_map(|x| x + 1), 1 => u64s().prop_map(|x| x.clamp(1, u64::MAX - 1000))], prop_oneof![5 => 0u64..3, 1 => 0u64..2000], prop_oneof![2 => Just(0u8), 3 => 1u8..4], proptest::bool::weighted(0.75)),
    )
        .prop_map(|((creator, owner, cb), (opts, height, time), (unordered, cb_owns), (seq0, chan0, gap, connect))| {
            // most histories start from a working instantiation
            let mut opts = opts;
            if connect {
                opts.port = opts.port.filter(|p| p == "icahost");
                if !known_conn(&opts.conn) {
                    opts.conn = "connection-0".into();
                }
            }
            let owner = if connect { if let Arg::Bad(k) = owner { Arg::Actor(k % 8) } else { owner } } else { owner };
            let cb = if connect { if let Arg::Bad(k) = cb { Arg::Actor(k % 8) } else { cb } } else { cb };
            if unordered {
                opts.order = Some(false);
            }
            let owner = if cb_owns { cb.clone() } else { owner };
            Init { creator, owner, cb, opts, height, time, seq0, chan0, gap, connect }
        })
        .boxed()
}
pub fn hists(p: Prof, t: Tier) -> BoxedStrategy<Hist> {
    let (n, long): (usize, usize) = if t == Tier::Quick { (24, 60) } else { (40, 160) };
    (init_of(p), prop_oneof![9 => proptest::collection::vec(op(p), 1..n), 1 => proptest::collection::vec(op(p), 1..long)]).prop_map(move |(init, ops)| Hist { init, ops, form: 0, detached: p.detached }).boxed()
}

pub struct Run {
    pub viol: Option<Viol>,
    pub classes: std::collections::BTreeSet<&'static str>,
    pub world: Option<World>,
    pub at: usize,
}
pub fn run(h: &Hist, skip: impl Fn(&Op) -> bool, mut each: impl FnMut(&World) -> Result<(), Viol>) -> Run {
    let mut r = Run { viol: None, classes: Default::default(), world: None, at: 0 };
    let mut w = match World::start(&h.init, h.form, h.detached) {
        Ok(Some(w)) => w,
        Ok(None) => {
            r.classes.insert("instantiation_refused");
            return r;
        }
        Err(v) => {
            r.viol = Some(v);
            return r;
        }
    };
    if let Err(v) = each(&w) {
        r.viol = Some(v);
        return r;
    }
    for (i, o) in h.ops.iter().enumerate() {
        if skip(o) {
            continue;
        }
        r.at = i + 1;
        let x = w.step(o).and_then(|_| each(&w));
        if let Err(v) = x {
            r.viol = Some(v);
            break;
        }
    }
    r.classes = w.classes.clone();
    r.world = Some(w);
    r
}

/// verdict of property `id` on a history
pub fn verdict(id: &'static str, h: &Hist, nontrivial: &[&[&'static str]]) -> Obs {
    let layout = |w: &World| -> Result<(), Viol> {
        if id == "C22" {
            crate::image::check(w).map_err(|text| Viol { tags: vec!["C22"], text })
        } else if id == "C25" {
            bounded(w).map_err(|text| Viol { tags: vec!["C25"], text })
        } else if id == "C20" {
            crate::direct::answers(w).map_err(|text| Viol { tags: vec!["C20"], text })
        } else {
            Ok(())
        }
    };
    let r = run(h, |_| false, layout);
    let mut o = Obs::default();
    for c in &r.classes {
        o.class(*c);
    }
    // non-trivial: every group has a class that occurred
    o.nontrivial = nontrivial.iter().all(|g| g.iter().any(|c| r.classes.contains(c)));
    if let Some(v) = r.viol {
        let step = r.at;
        if v.tags.contains(&id) {
            o.fail(format!("step {step}: {} {:?}", v.text, v.tags));
        } else if let Some(what) = match id {
            "C16" => Some("migration"),
            "C17" => Some("malformed or unexpected input"),
            "C22" => Some("stored image"),
            _ => None,
        } {
            // does the migration (the refused input, the stored image) cause it?
            let p = |x: &Op| match id {
                "C16" => matches!(x, Op::Migrate { .. }),
                "C17" => matches!(x, Op::OpenTry { .. } | Op::OpenConfirm { .. } | Op::ForeignClose { .. } | Op::Recv { .. } | Op::BadReply { .. } | Op::Ack { ack: AckSpec::Garbage(_), .. }),
                _ => matches!(x, Op::Reimage),
            };
            if h.ops.iter().any(p) && run(h, p, |_| Ok(())).viol.is_none() {
                o.fail(format!("step {step}: {} (not without the {what})", v.text));
            } else {
                o.class(format!("stopped_by_{}", v.tags.join("_")));
            }
        } else if id == "C20" && h.form != 0 && run(&Hist { form: 0, ..h.clone() }, |_| false, |_| Ok(())).viol.is_none() {
            o.fail(format!("step {step}: {} (not with the canonical JSON form)", v.text));
        } else {
            o.class(format!("stopped_by_{}", v.tags.join("_")));
        }
    }
    o
}

/// C25: what is stored is bounded by what the contract has to remember
fn bounded(w: &World) -> Result<(), String> {
    let need = crate::image::render(w);
    let size = |s: &crate::driver::Store| s.0.iter().map(|(k, v)| k.len() + v.len()).sum::<usize>();
    let waiting: usize = w.chans.values().flat_map(|c| c.pkts.values()).filter(|p| !p.queries.is_empty()).count();
    if w.st.0.len() > need.0.len() + 2 {
        let keys: Vec<String> = w.st.0.keys().map(|k| String::from_utf8_lossy(k).to_string()).collect();
        return Err(format!("{} storage items while {waiting} query packets await their outcome: {keys:?}", keys.len()));
    }
    // names and encodings may differ, growth may not
    if size(&w.st) > 3 * size(&need) + 2000 {
        return Err(format!("{} bytes of storage while {waiting} query packets await their outcome ({} bytes hold what must be remembered)", size(&w.st), size(&need)));
    }
    Ok(())
}

/// C23: whatever happened before, the owner can get back to a working account
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recovery {
    pub past: Hist,
    /// how an open channel is lost: 0 not at all, closed by 1 the owner, 2 the counterparty, 3 a timeout
    pub lose: u8,
    pub opts: Option<Opts>,
    pub meta: Meta,
    /// the handshake is first tried with this metadata
    pub bad: Option<Meta>,
    pub send: Send,
    pub height: u64,
    pub handover: Option<u8>,
}
pub fn recoveries(t: Tier) -> BoxedStrategy<Recovery> {
    let p = Prof { chan: 6, bad: 4, query: 5, answer: 5, timeout: 3, migrate: 2, own: 2, burst: 1, cb_fail: 2, ..BASE };
    let good = opts().prop_map(|mut o| {
        o.port = o.port.filter(|p| p == "icahost");
        if !known_conn(&o.conn) {
            o.conn = "connection-7".into();
        }
        o
    });
    let sends = (proptest::collection::vec(vcommon::msgs::simple(), 0..3), proptest::collection::vec(vcommon::queries::simple(), 0..4), memos()).prop_map(|(msgs, queries, memo)| Send { msgs, queries, memo, timeout: None });
    (hists(p, t), 0u8..4, prop_oneof![Just(None), good.prop_map(Some)], meta::good(), opt(meta::any_meta()), sends, 0u64..1000, opt((0u8..8).boxed()))
        .prop_map(|(mut past, lose, opts, meta, bad, send, height, handover)| {
            past.init.time = past.init.time.min(u64::MAX / 2);
            Recovery { past, lose, opts, meta, bad, send, height, handover }
        })
        .boxed()
}
fn recover(c: &Recovery, w: &mut World, o: &mut Obs) -> Result<(), String> {
    fn must(w: &mut World, what: &str, op: Op) -> Result<(), String> {
        match w.step(&op) {
            Ok(true) => Ok(()),
            Ok(false) => Err(format!("{what} is refused")),
            Err(v) => Err(format!("{what}: {}", v.text)),
        }
    }
    let own = |x: Ex| Op::Exec { who: Who::Owner, x, funds: false };
    must(w, "setting the callback address", own(Ex::SetCb(Arg::Actor(6))))?;
    if let Some((ch, true)) = w.m.tracked.clone() {
        let id = ch["endpoint"]["channel_id"].as_str().unwrap_or("").to_string();
        let n = w.find(&id).ok_or("no channel")?;
        let i = w.chans.values().filter(|c| c.st != St::Closed).position(|c| c.id == id).unwrap_or(0);
        match c.lose {
            0 => {}
            1 => must(w, "closing by the owner", own(Ex::Close))?,
            3 if w.chans[&n].opts.ordered() => {
                if w.chans[&n].pkts.is_empty() {
                    must(w, "a send on the open channel", own(Ex::Send(Send { timeout: Some(5), ..c.send.clone() })))?;
                }
                let Some(k) = w.answerable().iter().position(|x| x.0 == n) else { return Ok(()) };
                if k > 255 {
                    return Ok(());
                }
                must(w, "a timeout", Op::Timeout { sel: k as u8, relayer: 1, cb: CbMode::Ok })?;
            }
            _ => {
                if i > 255 {
                    return Ok(());
                }
                must(w, "closing by the counterparty", Op::CloseConfirm { sel: i as u8 })?;
            }
        }
    }
    if !w.m.tracked.as_ref().is_some_and(|t| t.1) {
        o.class(if w.m.tracked.is_some() { "reopened" } else { "opened_late" });
        must(w, "create-channel by the owner", own(Ex::Create(c.opts.clone())))?;
        if let Some(b) = &c.bad {
            // whatever becomes of this attempt
            if let Err(v) = w.step(&Op::OpenAck { sel: 255, meta: b.clone(), cb: CbMode::Ok, relay_port: 0 }) {
                return Err(format!("the first handshake attempt: {}", v.text));
            }
        }
        if !w.m.tracked.as_ref().is_some_and(|t| t.1) {
            must(w, "the handshake", Op::OpenAck { sel: 255, meta: c.meta.clone(), cb: CbMode::Ok, relay_port: 0 })?;
        }
    }
    if let Some(to) = c.handover {
        must(w, "proposing a new owner", own(Ex::Transfer(Arg::Actor(to), ExpSpec::None)))?;
        must(w, "acceptance by the new owner", Op::Exec { who: Who::Pending, x: Ex::Accept, funds: false })?;
        o.class("handed_over");
    }
    must(w, "a send", own(Ex::Send(c.send.clone())))?;
    let id = w.m.ica.clone().ok_or("no account")?.1;
    let n = w.find(&id).ok_or("no channel")?;
    if let Some(k) = w.answerable().iter().rposition(|x| x.0 == n) {
        if k < 256 {
            must(w, "its acknowledgement", Op::Ack { sel: k as u8, ack: AckSpec::Good { height: c.height, seeds: vec![], count: None }, relayer: 2, cb: CbMode::Ok, space: false })?;
        }
    }
    o.nontrivial = true;
    Ok(())
}
pub fn recovery(c: &Recovery) -> Obs {
    let mut o = Obs::default();
    let r = run(&c.past, |_| false, |_| Ok(()));
    for x in &r.classes {
        o.class(*x);
    }
    if let Some(v) = r.viol {
        o.class(format!("stopped_by_{}", v.tags.join("_")));
        return o;
    }
    let Some(mut w) = r.world else { return o };
    if let Err(e) = recover(c, &mut w, &mut o) {
        o.fail(format!("after {} steps: {e}", c.past.ops.len()));
    }
    o
}

/// C24: the same history, before and after another instance ran
pub fn determinism(c: &(Hist, Hist)) -> Obs {
    let mut o = Obs::default();
    // computed once per process, by calls that are none of this history's
    crate::sim::known_reply_ids();
    let go = |h: &Hist| crate::driver::recorded(|| run(h, |_| false, |_| Ok(())));
    let (r, a) = go(&c.0);
    let (_, other) = crate::driver::elsewhere(1, || go(&c.1));
    let (_, b) = go(&c.0);
    for x in &r.classes {
        o.class(*x);
    }
    o.nontrivial = !other.is_empty() && r.classes.contains("callback_made") && r.classes.contains("sent_queries");
    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
        o.fail(format!("call {i} of the same history: {:?} the first time, {:?} the second time", a.get(i), b.get(i)));
    }
    o
}
