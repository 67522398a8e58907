//! Minimal protobuf wire codec, written independently of prost.

#[derive(Clone, Default, Debug)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn new() -> Self {
        W(Vec::new())
    }
    pub fn varint(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    fn key(&mut self, f: u32, wt: u32) {
        self.varint(u64::from(f) << 3 | u64::from(wt));
    }
    /// proto3 scalar: default value is not written
    pub fn uint(mut self, f: u32, v: u64) -> Self {
        if v != 0 {
            self.key(f, 0);
            self.varint(v);
        }
        self
    }
    pub fn bytes(mut self, f: u32, b: &[u8]) -> Self {
        if !b.is_empty() {
            self.key(f, 2);
            self.varint(b.len() as u64);
            self.0.extend_from_slice(b);
        }
        self
    }
    pub fn str(self, f: u32, s: &str) -> Self {
        self.bytes(f, s.as_bytes())
    }
    /// length-delimited field, written even if empty (messages, repeated elements)
    pub fn len(mut self, f: u32, b: &[u8]) -> Self {
        self.key(f, 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
        self
    }
    pub fn msg(self, f: u32, m: W) -> Self {
        self.len(f, &m.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Varint(u64),
    I64(u64),
    Len(Vec<u8>),
    I32(u32),
}

impl Val {
    pub fn is_default(&self) -> bool {
        match self {
            Val::Varint(v) | Val::I64(v) => *v == 0,
            Val::I32(v) => *v == 0,
            Val::Len(b) => b.is_empty(),
        }
    }
}

fn rd_varint(b: &[u8], i: &mut usize) -> Result<u64, String> {
    let mut v: u64 = 0;
    for k in 0..10 {
        let x = *b.get(*i).ok_or("truncated varint")?;
        *i += 1;
        if k == 9 && x > 1 {
            return Err("varint overflow".into());
        }
        v |= u64::from(x & 0x7f) << (7 * k);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}

pub fn parse(b: &[u8]) -> Result<Vec<(u32, Val)>, String> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let k = rd_varint(b, &mut i)?;
        let f = u32::try_from(k >> 3).map_err(|_| "bad field number")?;
        if f == 0 {
            return Err("field number 0".into());
        }
        let v = match k & 7 {
            0 => Val::Varint(rd_varint(b, &mut i)?),
            1 => {
                let s = b.get(i..i + 8).ok_or("truncated fixed64")?;
                i += 8;
                Val::I64(u64::from_le_bytes(s.try_into().unwrap()))
            }
            2 => {
                let n = usize::try_from(rd_varint(b, &mut i)?).map_err(|_| "length")?;
                let e = i.checked_add(n).ok_or("length")?;
                let s = b.get(i..e).ok_or("truncated length-delimited field")?;
                i = e;
                Val::Len(s.to_vec())
            }
            5 => {
                let s = b.get(i..i + 4).ok_or("truncated fixed32")?;
                i += 4;
                Val::I32(u32::from_le_bytes(s.try_into().unwrap()))
            }
            w => return Err(format!("wire type {w}")),
        };
        out.push((f, v));
    }
    Ok(out)
}

/// The kind of a field in a message description.
#[derive(Clone, Copy)]
pub enum K {
    Str,
    Bytes,
    U64,
    Msg(Desc),
    RepMsg(Desc),
    RepStr,
}
pub type Desc = &'static [(u32, &'static str, K)];

/// Decodes `b` by the description: absent scalars become their default, an absent submessage becomes the default
/// submessage (proto3 non-nullable reading). Unknown fields carrying a non-default value are an error, because the
/// host would see something that was not asked for (ADR-020 rejects them).
pub fn decode(b: &[u8], d: Desc) -> Result<serde_json::Value, String> {
    use serde_json::{json, Map, Value};
    let mut m: Map<String, Value> = Map::new();
    for (_, n, k) in d {
        let v = match k {
            K::Str | K::Bytes => json!(""),
            K::U64 => json!(0u64),
            K::Msg(d2) => decode(&[], d2)?,
            K::RepMsg(_) | K::RepStr => json!([]),
        };
        m.insert((*n).to_string(), v);
    }
    for (f, v) in parse(b)? {
        let Some((_, n, k)) = d.iter().find(|x| x.0 == f) else {
            if v.is_default() {
                continue;
            }
            return Err(format!("unknown field {f} = {v:?}"));
        };
        let e = || format!("field {n}: wrong wire type {v:?}");
        match (k, &v) {
            (K::Str, Val::Len(x)) => {
                let s = String::from_utf8(x.clone()).map_err(|_| format!("field {n}: not utf8"))?;
                m.insert((*n).into(), json!(s));
            }
            (K::Bytes, Val::Len(x)) => {
                m.insert((*n).into(), json!(crate::hex(x)));
            }
            (K::U64, Val::Varint(x)) => {
                m.insert((*n).into(), json!(x));
            }
            (K::Msg(d2), Val::Len(x)) => {
                m.insert((*n).into(), decode(x, d2)?);
            }
            (K::RepMsg(d2), Val::Len(x)) => {
                let y = decode(x, d2)?;
                m.get_mut(*n).unwrap().as_array_mut().unwrap().push(y);
            }
            (K::RepStr, Val::Len(x)) => {
                let s = String::from_utf8(x.clone()).map_err(|_| format!("field {n}: not utf8"))?;
                m.get_mut(*n).unwrap().as_array_mut().unwrap().push(json!(s));
            }
            _ => return Err(e()),
        }
    }
    Ok(Value::Object(m))
}
