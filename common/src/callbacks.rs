//! Callback messages, generated in their documented form.
use crate::b64;
use crate::gen::*;
use proptest::prelude::*;
use serde_json::{json, Value};

pub fn packet() -> BoxedStrategy<Value> {
    let ep = || (strings(), strings()).prop_map(|(p, c)| json!({"port_id":p,"channel_id":c}));
    let timeout = (opt((u64s(), u64s()).boxed()), opt(u64s())).prop_map(|(b, t)| json!({"block":b.map(|(r, h)| json!({"revision":r,"height":h})),"timestamp":t.map(|t| t.to_string())}));
    (bytes(), ep(), ep(), u64s(), timeout).prop_map(|(d, src, dest, sequence, timeout)| json!({"data":b64(&d),"src":src,"dest":dest,"sequence":sequence,"timeout":timeout})).boxed()
}
/// every callback the controller can emit
pub fn callback() -> BoxedStrategy<Value> {
    let ack = prop_oneof![bytes().prop_map(|b| json!({"result":b64(&b)})), strings().prop_map(|e| json!({"error":e}))];
    let result = prop_oneof![
        2 => Just(Value::Null),
        1 => strings().prop_map(|e| json!({"error":e})),
        4 => (list(crate::queries::supported(), 12), list(crate::resp::seeds(), 12), u64s()).prop_map(|(q, s, h)| {
            if q.is_empty() {
                return json!({"success":{"height":h,"responses":[]}});
            }
            match crate::resp::answer(&q, &s, h, None).1 {
                crate::resp::Expect::Exact(v) => v,
                _ => json!({"error":"not decoded"}),
            }
        }),
    ];
    let a = (ack, packet(), addrs(), result).prop_map(|(a, p, r, q)| {
        let mut v = json!({"ica_acknowledgement":a,"original_packet":p,"relayer":r});
        if !q.is_null() {
            v["query_result"] = q;
        }
        json!({"on_acknowledgement_packet_callback":v})
    });
    let t = (packet(), addrs()).prop_map(|(p, r)| json!({"on_timeout_packet_callback":{"original_packet":p,"relayer":r}}));
    let ep = || (strings(), strings()).prop_map(|(p, c)| json!({"port_id":p,"channel_id":c}));
    let o = (ep(), ep(), any::<bool>(), strings(), strings(), strings()).prop_map(|(e, c, ord, v, conn, ica)| {
        json!({"on_channel_open_ack_callback":{"channel":{"endpoint":e,"counterparty_endpoint":c,"order":if ord {"ORDER_ORDERED"} else {"ORDER_UNORDERED"},"version":v,"connection_id":conn},
            "ica_address":ica,"tx_encoding":"proto3"}})
    });
    prop_oneof![4 => a, 2 => t, 2 => o].prop_map(|b| json!({"receive_ica_callback":b})).boxed()
}
