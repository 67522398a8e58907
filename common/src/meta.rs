//! ICS-27 version metadata as a counterparty or relayer may send it.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use crate::gen::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tri {
    Yes,
    No,
    /// the specification does not say
    Any,
}

/// `None` fields hold the right value
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub version: Option<String>,
    pub conn: Option<String>,
    pub host: String,
    pub addr: String,
    pub enc: Option<String>,
    pub tx: Option<String>,
    pub shape: Shape,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Compact,
    Reordered,
    Escaped,
    Missing(u8),
    Extra,
    NotJson,
    FeeWrapped,
    WrongType(u8),
    Trailing,
    Empty,
    Array,
}
pub const FIELDS: [&str; 6] = ["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"];

impl Meta {
    pub fn good(addr: &str) -> Meta {
        Meta { version: None, conn: None, host: "connection-1".into(), addr: addr.into(), enc: None, tx: None, shape: Shape::Compact }
    }
    pub fn value(&self, conn: &str) -> Value {
        json!({"version":self.version.as_deref().unwrap_or("ics27-1"),"controller_connection_id":self.conn.as_deref().unwrap_or(conn),
            "host_connection_id":self.host,"address":self.addr,"encoding":self.enc.as_deref().unwrap_or("proto3"),
            "tx_type":self.tx.as_deref().unwrap_or("sdk_multi_msg")})
    }
    pub fn render(&self, conn: &str) -> String {
        let v = self.value(conn);
        let text = |order: &[usize], sp: &str| {
            let f: Vec<String> = order.iter().map(|i| format!("{}:{sp}{}", json!(FIELDS[*i]), v[FIELDS[*i]])).collect();
            format!("{{{sp}{}{sp}}}", f.join(&format!(",{sp}")))
        };
        match self.shape {
            Shape::Compact => text(&[0, 1, 2, 3, 4, 5], ""),
            Shape::Reordered => text(&[5, 3, 0, 4, 2, 1], " "),
            Shape::Escaped => text(&[0, 1, 2, 3, 4, 5], "\n\t"),
            Shape::Missing(k) => {
                let o: Vec<usize> = (0..6).filter(|i| *i != k as usize % 6).collect();
                text(&o, "")
            }
            Shape::Extra => {
                let mut t = text(&[0, 1, 2, 3, 4, 5], "");
                t.pop();
                t + ",\"extra\":\"x\"}"
            }
            Shape::NotJson => "ics27-1".into(),
            Shape::FeeWrapped => json!({"fee_version":"ics29-1","app_version":text(&[0, 1, 2, 3, 4, 5], "")}).to_string(),
            Shape::WrongType(k) => {
                let mut v = v;
                v[FIELDS[k as usize % 6]] = json!(7);
                v.to_string()
            }
            Shape::Trailing => text(&[0, 1, 2, 3, 4, 5], "") + "}",
            Shape::Empty => String::new(),
            Shape::Array => Value::Array(FIELDS.iter().map(|f| v[*f].clone()).collect()).to_string(),
        }
    }
    pub fn is_json(&self) -> bool {
        matches!(self.shape, Shape::Compact | Shape::Reordered | Shape::Escaped)
    }
    /// do the ICS-27 rules accept it for a channel on `conn`?
    pub fn judge(&self, conn: &str, need_addr: bool) -> Tri {
        if self.shape == Shape::Array {
            return Tri::Any; // some JSON decoders read a struct from an array
        }
        if self.shape == Shape::Extra {
            // whether an additional field is tolerated is not specified; the known ones must be right
            let m = Meta { shape: Shape::Compact, ..self.clone() };
            return if m.judge(conn, need_addr) == Tri::No { Tri::No } else { Tri::Any };
        }
        if !self.is_json() {
            return Tri::No;
        }
        if self.version.as_deref().unwrap_or("ics27-1") != "ics27-1"
            || self.conn.as_deref().unwrap_or(conn) != conn
            || self.enc.as_deref().unwrap_or("proto3") != "proto3"
            || self.tx.as_deref().unwrap_or("sdk_multi_msg") != "sdk_multi_msg"
        {
            return Tri::No;
        }
        if self.addr.is_empty() {
            return if need_addr { Tri::No } else { Tri::Yes };
        }
        if self.addr.len() > 128 {
            return Tri::No;
        }
        if self.addr.chars().all(|c| c.is_ascii_alphanumeric()) {
            return Tri::Yes;
        }
        if self.addr.chars().all(char::is_alphanumeric) {
            return Tri::Any; // letters outside ASCII
        }
        Tri::No
    }
}

pub fn good() -> BoxedStrategy<Meta> {
    let addr = prop_oneof![
        4 => "(cosmos|osmo|juno)1[02-9ac-hj-np-z]{38}",
        2 => "[a-zA-Z0-9]{1,20}",
        3 => known().prop_map(|s| s.replace("wasm.", "")),
        1 => (1usize..=128).prop_map(|n| "a1".repeat(64)[..n].to_string()),
        1 => Just("Z".repeat(128)),
        1 => Just("9".repeat(127)),
    ];
    let shape = prop_oneof![6 => Just(Shape::Compact), 1 => Just(Shape::Reordered), 1 => Just(Shape::Escaped)];
    (addr, prop_oneof![2 => Just("connection-1".to_string()), 1 => strings()], shape)
        .prop_map(|(addr, host, shape)| Meta { version: None, conn: None, host, addr, enc: None, tx: None, shape })
        .boxed()
}
pub fn bad_addrs() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => Just("a".repeat(129)),
        1 => (129usize..300).prop_map(|n| "b".repeat(n)),
        2 => ("[a-z0-9]{0,9}", "[-_ .:/\\\\@+=]", "[a-z0-9]{0,9}").prop_map(|(a, b, c)| format!("{a}{b}{c}")),
        1 => Just(" cosmos1abc".to_string()),
        1 => Just("cosmos1abc\n".to_string()),
        1 => Just("é".repeat(65)),
        1 => Just("\u{0}".to_string()),
        1 => strings(),
    ]
    .boxed()
}
/// mostly one deviation from a good one
pub fn any_meta() -> BoxedStrategy<Meta> {
    let near = |s: &str| {
        let s = s.to_string();
        prop_oneof![
            2 => strings(),
            1 => Just(String::new()),
            2 => Just(s.to_uppercase()),
            2 => Just(format!("{s} ")),
            1 => Just(format!(" {s}")),
            1 => Just(format!("x{s}")),
            1 => Just(s[1..].to_string()),
            2 => Just(format!("{s}0")),
            2 => Just(s[..s.len() - 1].to_string()),
        ]
        .boxed()
    };
    let shape = prop_oneof![
        (0u8..6).prop_map(Shape::Missing),
        Just(Shape::Extra),
        Just(Shape::NotJson),
        Just(Shape::FeeWrapped),
        (0u8..6).prop_map(Shape::WrongType),
        Just(Shape::Trailing),
        Just(Shape::Empty),
    ];
    let dev = prop_oneof![
        2 => Just(None).boxed(),
        3 => prop_oneof![near("ics27-1"), Just("ics27-2".to_string()), Just("ics20-1".to_string())].prop_map(|x| Some((0u8, x))).boxed(),
        3 => prop_oneof![near("connection-0"), pick(vec!["connection-1".to_string(), "connection-2".into(), "connection-00".into(), "0".into()])].prop_map(|x| Some((1u8, x))).boxed(),
        4 => bad_addrs().prop_map(|x| Some((2u8, x))).boxed(),
        3 => prop_oneof![near("proto3"), Just("proto3json".to_string()), Just("json".to_string())].prop_map(|x| Some((3u8, x))).boxed(),
        3 => prop_oneof![near("sdk_multi_msg"), Just("sdk_single_msg".to_string())].prop_map(|x| Some((4u8, x))).boxed(),
        1 => Just(Some((5u8, String::new()))).boxed(),
    ];
    (good(), dev, shape)
        .prop_map(|(mut m, d, s)| {
            match d {
                None => {}
                Some((0, x)) => m.version = Some(x),
                Some((1, x)) => m.conn = Some(x),
                Some((2, x)) => m.addr = x,
                Some((3, x)) => m.enc = Some(x),
                Some((4, x)) => m.tx = Some(x),
                Some(_) => m.shape = s,
            }
            m
        })
        .boxed()
}
