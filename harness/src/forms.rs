//! Documented JSON forms of a request: optional fields null or left out, no queries as an empty list, null or nothing,
//! no messages as an empty list or null, fields in any order, white space anywhere.
use serde_json::Value;

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.next() % n == 0
    }
}

/// form 0 is the canonical text
pub fn text(v: &Value, form: u64) -> Vec<u8> {
    if form == 0 {
        return serde_json::to_vec(v).unwrap();
    }
    let mut m = Mix(form);
    let spaced = m.one_in(3);
    let mut out = String::new();
    put(v, &mut m, spaced, false, &mut out);
    out.into_bytes()
}
fn sp(m: &mut Mix, spaced: bool, out: &mut String) {
    if spaced {
        out.push_str(["", " ", "\n", "\t", "\r\n", "  "][(m.next() % 6) as usize]);
    }
}
fn put(v: &Value, m: &mut Mix, spaced: bool, in_send: bool, out: &mut String) {
    sp(m, spaced, out);
    match v {
        Value::Object(o) => {
            let mut es: Vec<(&String, Option<&Value>)> = vec![];
            let null = Value::Null;
            for (k, x) in o {
                let empty = x.as_array().is_some_and(Vec::is_empty);
                if x.is_null() {
                    if m.one_in(2) {
                        es.push((k, Some(x)));
                    }
                } else if in_send && k == "queries" && empty {
                    match m.next() % 3 {
                        0 => es.push((k, Some(x))),
                        1 => es.push((k, None)),
                        _ => {}
                    }
                } else if in_send && k == "messages" && empty && m.one_in(2) {
                    es.push((k, None));
                } else {
                    es.push((k, Some(x)));
                }
            }
            for i in (1..es.len()).rev() {
                let j = (m.next() % (i as u64 + 1)) as usize;
                es.swap(i, j);
            }
            out.push('{');
            for (i, (k, x)) in es.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(m, spaced, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                sp(m, spaced, out);
                out.push(':');
                put(x.unwrap_or(&null), m, spaced, k.as_str() == "send_cosmos_msgs", out);
            }
            sp(m, spaced, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                put(x, m, spaced, false, out);
            }
            sp(m, spaced, out);
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
    sp(m, spaced, out);
}

/// a sequence of forms; `Form(0)` stays canonical
#[derive(Clone)]
pub struct Form(pub u64);
impl Form {
    pub fn text(&mut self, v: &Value) -> Vec<u8> {
        if self.0 != 0 {
            self.0 = Mix(self.0).next() | 1;
        }
        text(v, self.0)
    }
}
