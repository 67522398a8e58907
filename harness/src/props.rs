//! The checks: which suites decide which property, with what emphasis.
use crate::direct;
use crate::hist::{self, Hist, Prof, BASE};
use crate::sim::{AckSpec, CbMode, Ex, Op, Who};
use proptest::prelude::*;
use vcommon::gen::*;
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};

macro_rules! history {
    ($id:literal, $name:literal, $make:expr, $q:expr, $t:expr, $non:expr) => {{
        fn make(t: Tier) -> BoxedStrategy<Hist> {
            let f: fn(Tier) -> BoxedStrategy<Hist> = $make;
            f(t)
        }
        fn check(h: &Hist) -> Obs {
            hist::verdict($id, h, $non)
        }
        Box::new(Suite { name: $name, quick: $q, thorough: $t, make, check }) as Box<dyn SuiteDyn>
    }};
}
macro_rules! direct {
    ($name:literal, $q:expr, $t:expr, $make:expr, $check:expr) => {
        Box::new(Suite { name: $name, quick: $q, thorough: $t, make: $make, check: $check }) as Box<dyn SuiteDyn>
    };
}

const CHAIN: &str = "the chain behaves as wasmd/ibc-go: a failed transaction leaves no trace, messages emitted are executed depth first in the same transaction, replies are delivered as requested with both data and msg_responses, channel ids and sequences are assigned by core";
const DISCRETION: &str = "the model leaves open what the documentation leaves open: error texts, whether a request that cannot succeed is refused early or when it is carried out, metadata with additional fields, non-ASCII alphanumeric account addresses";
const LEVELS: &str = "contract driven natively through its entry points with JSON in and out; wasm compilation and gas are out of scope";

/// one or a few sends of any size by the owner of a freshly connected controller
fn sends(_: Tier) -> BoxedStrategy<Hist> {
    (direct::good_init(), proptest::collection::vec(hist::rich_send(), 1..3))
        .prop_map(|(mut init, s)| {
            init.connect = true;
            Hist { init, ops: s.into_iter().map(|s| Op::Exec { who: Who::Owner, x: Ex::Send(s), funds: false }).collect(), form: 0, detached: false }
        })
        .boxed()
}
/// query packets of any size and the host's answers
fn answers(_: Tier) -> BoxedStrategy<Hist> {
    let ack = |s: BoxedStrategy<vcommon::resp::Seed>| {
        (u64s(), list(s, 40), prop_oneof![12 => Just(None), 1 => any::<u8>().prop_map(Some)]).prop_map(|(height, seeds, count)| AckSpec::Good { height, seeds, count }).boxed()
    };
    let good: BoxedStrategy<vcommon::resp::Seed> = vcommon::resp::seeds().prop_map(|mut s| {
        s.mode = vcommon::resp::Mode::Good;
        s
    }).boxed();
    let ack = prop_oneof![3 => ack(good), 2 => ack(vcommon::resp::seeds())];
    (direct::good_init(), hist::rich_queries(), ack, any::<u8>())
        .prop_map(|(mut init, mut s, ack, relayer)| {
            init.connect = true;
            if s.queries.is_empty() {
                s.queries.push(vcommon::queries::AQuery::BondedDenom);
            }
            init.cb = if let crate::sim::Arg::None = init.cb { crate::sim::Arg::Actor(5) } else { init.cb };
            Hist { init, ops: vec![Op::Exec { who: Who::Owner, x: Ex::Send(s), funds: false }, Op::Ack { sel: 0, ack, relayer: relayer % 8, cb: CbMode::Ok, space: false }], form: 0, detached: false }
        })
        .boxed()
}
/// short histories whose every packet is acknowledged with generated bytes
fn acks(_: Tier) -> BoxedStrategy<Hist> {
    let p = Prof { bad: 4, ..BASE };
    let one = (hist::send(false, false), hist::send(false, true), any::<bool>(), hist::ack(p), 0u8..8, any::<bool>()).prop_map(|(a, b, q, ack, relayer, space)| {
        vec![Op::Exec { who: Who::Owner, x: Ex::Send(if q { b } else { a }), funds: false }, Op::Ack { sel: 0, ack, relayer, cb: CbMode::Ok, space }]
    });
    (direct::good_init(), proptest::collection::vec(one, 1..4))
        .prop_map(|(mut init, o)| {
            init.connect = true;
            Hist { init, ops: o.concat(), form: 0, detached: false }
        })
        .boxed()
}

pub fn all() -> Vec<Property> {
    let chain = || vec![CHAIN, DISCRETION, LEVELS];
    let p = |id, rule, suites| Property { id, rule, suites, assumptions: chain() };
    vec![
        p(
            "C01",
            "histories in which the owner changed and a request came from someone else than the current owner",
            vec![
                history!("C01", "histories", |t| hist::hists(Prof { own: 6, ..BASE }, t), 100_000, 2_500_000, &[&["owner_changed"], &["asked_by_non_owner"]]),
                history!("C01", "entry", |t| hist::hists(Prof { own: 5, detached: true, ..BASE }, t), 30_000, 800_000, &[&["owner_changed"], &["asked_by_non_owner"]]),
            ],
        ),
        p(
            "C02",
            "histories in which a transfer was proposed and it was accepted, replaced, accepted too late or a renunciation was tried",
            vec![
                history!("C02", "histories", |t| hist::hists(Prof { own: 12, chan: 1, send: 1, query: 0, answer: 1, timeout: 0, bad: 0, ..BASE }, t), 160_000, 3_000_000, &[&["proposed"], &["owner_changed", "late_acceptance", "proposal_replaced", "renounce_tried"]]),
                history!("C02", "mixed", |t| hist::hists(Prof { own: 6, ..BASE }, t), 40_000, 1_000_000, &[&["proposed"], &["owner_changed", "late_acceptance", "proposal_replaced"]]),
            ],
        ),
        p(
            "C03",
            "histories with openings by the contract and attempts by relayers or the counterparty; entry-level cases with a permitted opening",
            vec![
                history!("C03", "histories", |t| hist::hists(Prof { chan: 12, bad: 6, own: 1, ..BASE }, t), 100_000, 2_500_000, &[&["opened"], &["relayer_opening", "counterparty_step"]]),
                history!("C03", "entry", |t| hist::hists(Prof { chan: 12, bad: 4, own: 1, detached: true, ..BASE }, t), 60_000, 1_500_000, &[&["opening_delivered", "opening_while_open"], &["relayer_opening", "counterparty_step"]]),
                direct!("openings", 200_000, 4_000_000, direct::hs, |c| direct::hs_check("C03", c)),
            ],
        ),
        p(
            "C04",
            "histories in which a channel was requested again, with new or with remembered options",
            vec![
                history!("C04", "histories", |t| hist::hists(Prof { chan: 12, own: 1, bad: 1, ..BASE }, t), 100_000, 2_500_000, &[&["opened"], &["create_with_new_options", "create_with_remembered_options"]]),
                history!("C04", "entry", |t| hist::hists(Prof { chan: 12, own: 1, bad: 1, detached: true, ..BASE }, t), 60_000, 1_500_000, &[&["create_with_new_options", "create_with_remembered_options"]]),
            ],
        ),
        p(
            "C05",
            "entry-level cases that reached the handshake step; histories in which handshakes completed and were refused",
            vec![
                direct!("handshakes", 400_000, 8_000_000, direct::hs, |c| direct::hs_check("C05", c)),
                history!("C05", "histories", |t| hist::hists(Prof { chan: 12, own: 1, bad: 2, ..BASE }, t), 60_000, 1_500_000, &[&["handshake_completed"], &["handshake_refused"]]),
            ],
        ),
        p(
            "C06",
            "histories with a completed handshake and a closing or a timeout",
            vec![
                history!(
                    "C06",
                    "histories",
                    |t| hist::hists(Prof { chan: 8, timeout: 5, answer: 3, own: 1, burst: 2, ..BASE }, t),
                    120_000,
                    3_000_000,
                    &[&["handshake_completed"], &["closed_by_owner", "closed_by_counterparty", "timeout_ordered", "timeout_unordered", "timeout_on_earlier_channel"]]
                ),
                history!(
                    "C06",
                    "entry",
                    |t| hist::hists(Prof { chan: 8, timeout: 5, answer: 3, own: 1, detached: true, ..BASE }, t),
                    30_000,
                    800_000,
                    &[&["handshake_completed"], &["closed_by_owner", "closed_by_counterparty", "timeout_ordered", "timeout_unordered", "timeout_on_earlier_channel"]]
                ),
            ],
        ),
        p(
            "C07",
            "histories with a closing by owner, counterparty, relayer or of a foreign channel",
            vec![
                history!(
                    "C07",
                    "histories",
                    |t| hist::hists(Prof { chan: 10, bad: 6, own: 1, ..BASE }, t),
                    100_000,
                    2_500_000,
                    &[&["handshake_completed"], &["closed_by_owner", "closed_by_counterparty"], &["relayer_closing", "closing_of_untracked_channel", "foreign_closing"]]
                ),
                history!(
                    "C07",
                    "entry",
                    |t| hist::hists(Prof { chan: 10, bad: 6, own: 1, detached: true, ..BASE }, t),
                    60_000,
                    1_500_000,
                    &[&["handshake_completed"], &["closed_by_owner", "closed_by_counterparty"], &["relayer_closing", "closing_of_untracked_channel", "foreign_closing"]]
                ),
            ],
        ),
        p(
            "C08",
            "cases with a packet sent",
            vec![
                history!("C08", "sends", sends, 60_000, 1_500_000, &[&["sent_messages", "sent_queries"]]),
                history!("C08", "histories", |t| hist::hists(Prof { send: 8, query: 6, burst: 3, own: 1, ..BASE }, t), 80_000, 2_000_000, &[&["sent_messages", "sent_queries"]]),
            ],
        ),
        p(
            "C09",
            "cases with a packet of messages sent or an unsupported message refused",
            vec![
                history!("C09", "sends", sends, 120_000, 3_000_000, &[&["sent_messages", "sent_queries", "unsupported_message"]]),
                history!("C09", "histories", |t| hist::hists(Prof { send: 12, query: 2, rich: true, own: 1, bad: 0, ..BASE }, t), 30_000, 800_000, &[&["sent_messages"]]),
            ],
        ),
        p(
            "C10",
            "cases with a packet of queries sent or an unsupported query refused",
            vec![
                history!("C10", "sends", sends, 120_000, 3_000_000, &[&["sent_queries", "unsupported_query"]]),
                history!("C10", "histories", |t| hist::hists(Prof { send: 2, query: 12, rich: true, own: 1, bad: 0, ..BASE }, t), 30_000, 800_000, &[&["sent_queries"]]),
            ],
        ),
        p(
            "C11",
            "histories with several query packets outstanding, one of them answered, failed or timed out",
            vec![
                history!(
                    "C11",
                    "histories",
                    |t| hist::hists(Prof { chan: 2, send: 4, query: 10, answer: 14, timeout: 3, burst: 6, own: 0, cbset: 1, unordered: 6, ..BASE }, t),
                    110_000,
                    3_000_000,
                    &[&["several_query_packets_outstanding"], &["result_ack_of_queries", "error_ack_of_queries", "timeout_of_queries"]]
                ),
                history!(
                    "C11",
                    "channels",
                    |t| hist::hists(Prof { chan: 6, send: 2, query: 10, answer: 12, timeout: 4, burst: 4, own: 0, ..BASE }, t),
                    50_000,
                    1_500_000,
                    &[&["answer_on_earlier_channel", "answered_out_of_order"]]
                ),
            ],
        ),
        p(
            "C12",
            "cases with an answered query packet",
            vec![
                history!("C12", "answers", answers, 200_000, 5_000_000, &[&["result_ack_of_queries"]]),
                history!("C12", "histories", |t| hist::hists(Prof { send: 1, query: 10, answer: 14, rich: true, own: 0, ..BASE }, t), 30_000, 800_000, &[&["result_ack_of_queries"]]),
            ],
        ),
        p(
            "C13",
            "histories with a callback made and the callback address changed, or an event without one",
            vec![
                history!("C13", "histories", |t| hist::hists(Prof { cbset: 6, answer: 8, timeout: 4, send: 6, query: 4, own: 1, ..BASE }, t), 110_000, 3_000_000, &[&["callback_made"], &["acknowledged", "timeout_ordered", "timeout_unordered"]]),
                history!("C13", "acks", acks, 60_000, 1_500_000, &[&["acknowledged"]]),
            ],
        ),
        p(
            "C14",
            "histories in which a callback failed and the event was delivered again, or the callback contract called back",
            vec![history!(
                "C14",
                "histories",
                |t| hist::hists(Prof { cb_fail: 5, cb_owns: 6, chan: 4, answer: 8, timeout: 3, send: 5, query: 5, own: 1, cbset: 1, bad: 1, ..BASE }, t),
                130_000,
                3_500_000,
                &[&["redelivered", "reentered"]]
            )],
        ),
        p(
            "C15",
            "cases with a processed acknowledgement",
            vec![
                history!("C15", "acks", acks, 150_000, 4_000_000, &[&["acknowledged"]]),
                history!("C15", "histories", |t| hist::hists(Prof { answer: 12, send: 6, query: 5, burst: 3, own: 1, ..BASE }, t), 60_000, 1_500_000, &[&["acknowledged"]]),
            ],
        ),
        p(
            "C16",
            "histories with a migration accepted or refused after the handshake",
            vec![
                history!("C16", "histories", |t| hist::hists(Prof { migrate: 12, query: 5, chan: 3, own: 2, ..BASE }, t), 110_000, 3_000_000, &[&["migrated"], &["handshake_completed"]]),
                history!("C16", "entry", |t| hist::hists(Prof { migrate: 12, chan: 8, own: 1, bad: 4, detached: true, ..BASE }, t), 30_000, 800_000, &[&["migrated"], &["handshake_completed"]]),
            ],
        ),
        p(
            "C17",
            "cases with a malformed or unexpected input, followed by further steps",
            vec![
                history!(
                    "C17",
                    "histories",
                    |t| hist::hists(Prof { bad: 16, query: 5, answer: 8, own: 1, ..BASE }, t),
                    100_000,
                    2_500_000,
                    &[&["garbage_ack", "unknown_reply", "packet_received", "counterparty_step", "foreign_closing", "closing_of_untracked_channel"], &["handshake_completed"]]
                ),
                history!("C17", "acks", acks, 100_000, 2_500_000, &[&["garbage_ack"]]),
            ],
        ),
        p(
            "C18",
            "callbacks of generated content decoded by a generated receiver enum; own messages of such enums; histories with callbacks emitted by the contract",
            vec![
                history!("C18", "emitted", |t| hist::hists(Prof { answer: 10, timeout: 4, send: 5, query: 6, own: 0, rich: true, ..BASE }, t), 30_000, 800_000, &[&["callback_made"]]),
                history!("C18", "answers", answers, 30_000, 800_000, &[&["callback_made"]]),
            ],
        ),
        p(
            "C20",
            "accepted requests in a non-canonical JSON form; malformed variants of acceptable requests; histories in such forms",
            vec![
                direct!("forms", 150_000, 4_000_000, direct::json_cases, direct::json_check),
                direct!("malformed", 150_000, 4_000_000, direct::bad_cases, direct::bad_check),
                history!("C20", "histories", |t| (hist::hists(BASE, t), 1u64..).prop_map(|(h, form)| Hist { form, ..h }).boxed(), 40_000, 1_000_000, &[&["handshake_completed"]]),
            ],
        ),
        p(
            "C22",
            "histories continued from an image in the released layout; images with a stored permission",
            vec![
                history!("C22", "histories", |t| hist::hists(Prof { image: 6, query: 6, answer: 8, own: 4, ..BASE }, t), 120_000, 3_000_000, &[&["reimaged"], &["handshake_completed"]]),
                direct!("permissions", 60_000, 1_500_000, direct::flags, direct::flags_check),
            ],
        ),
        p(
            "C23",
            "histories after which the account was brought back to work: channel kept or lost and reopened, message or query sent and acknowledged",
            vec![direct!("recoveries", 90_000, 3_000_000, hist::recoveries, hist::recovery)],
        ),
        p(
            "C24",
            "histories with queries sent and callbacks made, repeated after another instance ran",
            vec![
                direct!("repetitions", 30_000, 1_000_000, |t| (hist::hists(Prof { answer: 8, send: 5, query: 6, ..BASE }, t), hist::hists(BASE, Tier::Quick)).boxed(), hist::determinism),
                direct!("packets", 12_000, 400_000, |t| (answers(t), sends(t)).boxed(), hist::determinism),
            ],
        ),
        p(
            "C25",
            "histories in which query packets got their outcome",
            vec![
                history!("C25", "histories", |t| hist::hists(Prof { query: 10, answer: 10, timeout: 6, burst: 8, own: 0, ..BASE }, t), 30_000, 1_500_000, &[&["result_ack_of_queries", "error_ack_of_queries", "timeout_of_queries"]]),
                history!("C25", "channels", |t| hist::hists(Prof { query: 6, answer: 8, timeout: 8, chan: 8, burst: 6, own: 2, cbset: 2, ..BASE }, t), 20_000, 800_000, &[&["result_ack_of_queries", "error_ack_of_queries", "timeout_of_queries"]]),
            ],
        ),
        p(
            "C27",
            "accepted requests and given answers validated against the published schema; conforming requests handed to the contract",
            vec![
                direct!("requests", 100_000, 2_500_000, crate::schema::requests, crate::schema::requests_check),
                direct!("answers", 30_000, 800_000, crate::schema::histories, crate::schema::answers_check),
                direct!("conforming", 100_000, 2_500_000, crate::schema::conforming, crate::schema::conforming_check),
            ],
        ),
    ]
}
