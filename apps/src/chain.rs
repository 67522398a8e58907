//! A chain with several contracts: controllers, contracts that own controllers, callback counters. Transactions are
//! atomic; messages run depth first; ibc core assigns channel ids and sequences.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Addr, Api, CanonicalAddr};
use icacheck::driver::{self as d, Blk, NoQuerier, Out, Store};
use icacheck::sim::{known_conn, order_name, read_em, Em};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use vcommon::pb::W;
use vcommon::queries::AQuery;
use vcommon::{b64, unb64};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Controller,
    Owner,
    Counter,
}
#[derive(Clone)]
pub struct Cw {
    pub kind: Kind,
    pub st: Store,
    pub admin: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Init,
    Open,
    Closed,
}
#[derive(Clone)]
pub struct Pkt {
    pub json: Value,
    pub queries: Vec<AQuery>,
    pub nmsgs: usize,
}
#[derive(Clone)]
pub struct Ch {
    pub ctl: String,
    pub id: String,
    pub conn: String,
    pub port: String,
    pub ordered: bool,
    pub version: String,
    pub cp_chan: String,
    pub st: St,
    pub pkts: BTreeMap<u64, Pkt>,
    pub next: u64,
}
impl Ch {
    pub fn json(&self) -> Value {
        json!({"endpoint":{"port_id":format!("wasm.{}", self.ctl),"channel_id":self.id},"counterparty_endpoint":{"port_id":self.port,"channel_id":self.cp_chan},
            "order":order_name(self.ordered),"version":self.version,"connection_id":self.conn})
    }
}
/// what happened in the transaction
#[derive(Clone, Debug)]
pub enum Ev {
    Instantiated { addr: String, by: String, admin: Option<String>, msg: Value },
    Opening(usize),
    Closing,
    Sent { chan: usize, seq: u64, data: Vec<u8>, timeout: Value },
    Call { to: String, from: String, msg: Value },
}
#[derive(Clone)]
pub struct Chain {
    pub height: u64,
    pub time: u64,
    pub code: u64,
    pub cws: BTreeMap<String, Cw>,
    pub chans: Vec<Ch>,
    pub log: Vec<Ev>,
    /// queries of the packets that are about to be sent
    pub asking: (Vec<AQuery>, usize),
}
pub type F<T = ()> = Result<T, String>;

extern "C" {
    fn dlopen(file: *const std::ffi::c_char, flags: std::ffi::c_int) -> *mut std::ffi::c_void;
    fn dlsym(h: *mut std::ffi::c_void, name: *const std::ffi::c_char) -> *mut std::ffi::c_void;
}
type Sink = extern "C" fn(*mut u8, *const u8, usize);
type OwnerCall = unsafe extern "C" fn(*const u8, usize, Sink, *mut u8);
extern "C" fn sink(to: *mut u8, p: *const u8, n: usize) {
    // SAFETY: `to` is the vector given to owner_call
    unsafe { (*to.cast::<Vec<u8>>()).extend_from_slice(std::slice::from_raw_parts(p, n)) }
}
fn library() -> OwnerCall {
    static F: std::sync::OnceLock<OwnerCall> = std::sync::OnceLock::new();
    *F.get_or_init(|| {
        let file = std::env::var("VERIF_OWNER").unwrap_or_else(|_| "/verif/target/bin/libownerhost.so".into());
        let file = std::ffi::CString::new(file).unwrap();
        // SAFETY: the library is ours and exports this function
        unsafe {
            let h = dlopen(file.as_ptr(), 2);
            assert!(!h.is_null(), "cannot load {file:?}");
            let f = dlsym(h, c"owner_call".as_ptr());
            assert!(!f.is_null());
            std::mem::transmute::<*mut std::ffi::c_void, OwnerCall>(f)
        }
    })
}
/// an entry point of the owner contract
fn owner(entry: &str, st: &mut Store, b: &Blk, sender: &str, msg: &[u8], code: u64) -> Out {
    #[derive(serde::Serialize)]
    struct In<'a> {
        entry: &'a str,
        env: Value,
        sender: &'a str,
        msg: &'a [u8],
        store: Vec<(&'a [u8], &'a [u8])>,
        code: u64,
        checksum: String,
        creator: String,
    }
    #[derive(serde::Deserialize)]
    struct Res {
        result: Result<Value, String>,
        store: Vec<(Vec<u8>, Vec<u8>)>,
    }
    let i = serde_json::to_vec(&In {
        entry,
        env: serde_json::to_value(b.env()).unwrap(),
        sender,
        msg,
        store: st.0.iter().map(|(k, v)| (&k[..], &v[..])).collect(),
        code,
        checksum: vcommon::hex(&checksum(code)),
        creator: MockApi::default().addr_make("uploader").to_string(),
    })
    .unwrap();
    let mut o: Vec<u8> = vec![];
    // SAFETY: sink writes into the vector passed as its target
    unsafe { library()(i.as_ptr(), i.len(), sink, (&raw mut o).cast()) };
    let r: Res = serde_json::from_slice(&o).expect("answer of the owner library");
    match r.result {
        Ok(v) => {
            st.0 = r.store.into_iter().collect();
            Out::Ok(v)
        }
        Err(e) => Out::Rej(e),
    }
}
pub fn checksum(code: u64) -> Vec<u8> {
    Sha256::digest(code.to_be_bytes()).to_vec()
}
/// wasmd's predictable address
pub fn predictable(code: u64, creator: &str, salt: &[u8]) -> Option<String> {
    let api = MockApi::default();
    if salt.is_empty() || salt.len() > 64 {
        return None;
    }
    let creator = api.addr_canonicalize(creator).ok()?;
    let mut key = b"wasm\0".to_vec();
    for p in [&checksum(code)[..], creator.as_slice(), salt, &[]] {
        key.extend((p.len() as u64).to_be_bytes());
        key.extend(p);
    }
    let mut h = Sha256::digest(b"module").to_vec();
    h.extend(key);
    api.addr_humanize(&CanonicalAddr::from(Sha256::digest(&h).to_vec())).ok().map(Addr::into_string)
}
pub fn valid(a: &str) -> bool {
    MockApi::default().addr_validate(a).is_ok()
}

impl Chain {
    pub fn blk(&self, at: &str) -> Blk {
        Blk { height: self.height, time: self.time, contract: at.into() }
    }
    pub fn tx<T>(&mut self, f: impl FnOnce(&mut Chain) -> F<T>) -> F<T> {
        let save = self.clone();
        self.log.clear();
        let r = f(self);
        if r.is_err() {
            *self = save;
            self.log.clear();
        }
        r
    }
    fn cell(&mut self, at: &str) -> F<(Kind, &mut Store)> {
        self.cws.get_mut(at).map(|c| (c.kind, &mut c.st)).ok_or_else(|| format!("no contract at {at}"))
    }
    pub fn instantiate(&mut self, kind: Kind, at: &str, by: &str, admin: Option<String>, msg: &Value) -> F {
        if self.cws.contains_key(at) {
            return Err("address in use".into());
        }
        self.cws.insert(at.into(), Cw { kind, st: Store::default(), admin: admin.clone() });
        self.log.push(Ev::Instantiated { addr: at.into(), by: by.into(), admin, msg: msg.clone() });
        let b = self.blk(at);
        let code = self.code;
        let st = self.cell(at)?.1;
        let raw = serde_json::to_vec(msg).unwrap();
        let out = match kind {
            Kind::Controller => d::instantiate(st, &b, by, msg),
            Kind::Owner => owner("instantiate", st, &b, by, &raw, code),
            Kind::Counter => d::call(st, &NoQuerier, &raw, |x, m| callback_counter::contract::instantiate(x, b.env(), d::info(by, &json!([])), m)),
        };
        self.done(at, out)
    }
    pub fn execute(&mut self, by: &str, at: &str, msg: &Value) -> F {
        self.log.push(Ev::Call { to: at.into(), from: by.into(), msg: msg.clone() });
        let b = self.blk(at);
        let code = self.code;
        let (kind, st) = self.cell(at)?;
        let raw = serde_json::to_vec(msg).unwrap();
        let out = match kind {
            Kind::Controller => d::execute(st, &b, by, &json!([]), msg),
            Kind::Owner => owner("execute", st, &b, by, &raw, code),
            Kind::Counter => d::call(st, &NoQuerier, &raw, |x, m| callback_counter::contract::execute(x, b.env(), d::info(by, &json!([])), m)),
        };
        self.done(at, out)
    }
    pub fn query(&self, at: &str, msg: &Value) -> F<Value> {
        let c = self.cws.get(at).ok_or("no contract")?;
        let b = self.blk(at);
        let raw = serde_json::to_vec(msg).unwrap();
        let out = match c.kind {
            Kind::Controller => d::query(&c.st, &b, msg),
            Kind::Owner => owner("query", &mut c.st.clone(), &b, at, &raw, self.code),
            Kind::Counter => d::ask(&c.st, &raw, |x, m| callback_counter::contract::query(x, b.env(), m)),
        };
        match out {
            Out::Ok(v) => Ok(v),
            Out::Rej(e) => Err(e),
        }
    }
    fn done(&mut self, at: &str, out: Out) -> F {
        let v = match out {
            Out::Rej(e) => return Err(e),
            Out::Ok(v) => v,
        };
        for m in v["messages"].as_array().cloned().unwrap_or_default() {
            let on = m["reply_on"].as_str().unwrap_or("never").to_string();
            let save = self.clone();
            let r = self.message(at, &m["msg"]);
            let res = match &r {
                Ok(Some((b, url))) => json!({"ok":{"events":[],"data":b64(b),"msg_responses":[{"type_url":url,"value":b64(b)}]}}),
                Ok(None) => json!({"ok":{"events":[],"data":null,"msg_responses":[]}}),
                Err(e) => {
                    *self = save;
                    json!({"error":e})
                }
            };
            if on == "always" || on == if r.is_ok() { "success" } else { "error" } {
                let b = self.blk(at);
                let (kind, st) = self.cell(at)?;
                let msg = json!({"id":m["id"],"payload":m.get("payload").cloned().unwrap_or(json!("")),"gas_used":0,"result":res});
                let out = match kind {
                    Kind::Controller => d::reply(st, &b, &msg),
                    _ => return Err("contract has no reply entry point".into()),
                };
                self.done(at, out)?;
            } else {
                r?;
            }
        }
        Ok(())
    }
    fn message(&mut self, from: &str, m: &Value) -> F<Option<(Vec<u8>, &'static str)>> {
        let i = &m["wasm"]["instantiate2"];
        if !i.is_null() {
            let salt = unb64(i["salt"].as_str().unwrap_or(""))?;
            let msg = serde_json::from_slice(&unb64(i["msg"].as_str().unwrap_or(""))?).map_err(|e| e.to_string())?;
            let label = i["label"].as_str().unwrap_or("");
            if i["code_id"].as_u64() != Some(self.code) {
                return Err("no such code".into());
            }
            if i["funds"] != json!([]) {
                return Err("insufficient funds".into());
            }
            if label.is_empty() || label.len() > 128 {
                return Err("label".into());
            }
            let admin = i["admin"].as_str().map(String::from);
            if admin.as_ref().is_some_and(|a| !valid(a)) {
                return Err("admin".into());
            }
            let at = predictable(self.code, from, &salt).ok_or("salt")?;
            self.instantiate(Kind::Controller, &at, from, admin, &msg)?;
            return Ok(Some((W::new().str(1, &at).0, "/cosmwasm.wasm.v1.MsgInstantiateContract2Response")));
        }
        match read_em(m) {
            Em::Open(v, _) => {
                let conn = v["channel"]["hops"][0].as_str().unwrap_or("").to_string();
                if v["port"] != json!(format!("wasm.{from}")) || v["signer"] != json!(from) || !known_conn(&conn) {
                    return Err("core refuses the opening".into());
                }
                let c = Ch {
                    ctl: from.into(),
                    id: format!("channel-{}", self.chans.len()),
                    conn,
                    port: v["channel"]["counterparty"]["port"].as_str().unwrap_or("").into(),
                    ordered: v["channel"]["ordering"] == json!(2),
                    version: v["channel"]["version"].as_str().unwrap_or("").into(),
                    cp_chan: String::new(),
                    st: St::Init,
                    pkts: BTreeMap::new(),
                    next: 1,
                };
                let j = c.json();
                self.chans.push(c);
                let n = self.chans.len() - 1;
                self.log.push(Ev::Opening(n));
                let b = self.blk(from);
                match d::chan_open(self.cell(from)?.1, &b, &json!({"open_init":{"channel":j}})) {
                    Out::Rej(e) => Err(e),
                    Out::Ok(r) => {
                        if let Some(v) = r["version"].as_str() {
                            self.chans[n].version = v.into();
                        }
                        Ok(Some((W::new().str(1, &self.chans[n].id).0, "/ibc.core.channel.v1.MsgChannelOpenInitResponse")))
                    }
                }
            }
            Em::Close(id) => {
                let n = self.chans.iter().position(|c| c.id == id && c.ctl == from && c.st == St::Open).ok_or("no such open channel")?;
                self.log.push(Ev::Closing);
                let j = self.chans[n].json();
                let b = self.blk(from);
                let out = d::chan_close(self.cell(from)?.1, &b, &json!({"close_init":{"channel":j}}));
                self.chans[n].st = St::Closed;
                self.done(from, out)?;
                Ok(Some((vec![], "/ibc.core.channel.v1.MsgChannelCloseInitResponse")))
            }
            Em::Packet { chan, data, timeout } => {
                let n = self.chans.iter().position(|c| c.id == chan && c.ctl == from && c.st == St::Open).ok_or("no such open channel")?;
                let c = &mut self.chans[n];
                let seq = c.next;
                c.next += 1;
                let json = json!({"data":b64(&data),"src":{"port_id":format!("wasm.{from}"),"channel_id":chan},"dest":{"port_id":c.port,"channel_id":c.cp_chan},
                    "sequence":seq,"timeout":timeout});
                c.pkts.insert(seq, Pkt { json, queries: self.asking.0.clone(), nmsgs: self.asking.1 });
                self.log.push(Ev::Sent { chan: n, seq, data, timeout });
                Ok(Some((W::new().uint(1, seq).0, "/cosmwasm.wasm.v1.MsgIBCSendResponse")))
            }
            Em::Exec { to, msg, funds } => {
                if funds != json!([]) {
                    return Err("insufficient funds".into());
                }
                let msg: Value = serde_json::from_slice(&msg).map_err(|e| e.to_string())?;
                self.execute(from, &to, &msg)?;
                Ok(None)
            }
            Em::Other(m) => Err(format!("unexpected message {m}")),
        }
    }
    /// the counterparty accepted the opening
    pub fn open_ack(&mut self, n: usize, version: &str, cp: &str) -> F {
        let mut c = self.chans[n].clone();
        c.cp_chan = cp.into();
        let at = c.ctl.clone();
        let b = self.blk(&at);
        let out = d::chan_connect(self.cell(&at)?.1, &b, &json!({"open_ack":{"channel":c.json(),"counterparty_version":version}}));
        c.version = version.into();
        c.st = St::Open;
        self.chans[n] = c;
        self.done(&at, out)
    }
    pub fn close_confirm(&mut self, n: usize) -> F {
        let (at, j) = (self.chans[n].ctl.clone(), self.chans[n].json());
        let b = self.blk(&at);
        let out = d::chan_close(self.cell(&at)?.1, &b, &json!({"close_confirm":{"channel":j}}));
        self.chans[n].st = St::Closed;
        self.done(&at, out)
    }
    pub fn ack(&mut self, n: usize, seq: u64, ack: &[u8], relayer: &str) -> F {
        let at = self.chans[n].ctl.clone();
        let p = self.chans[n].pkts.remove(&seq).ok_or("no such packet")?;
        let b = self.blk(&at);
        let out = d::pkt_ack(self.cell(&at)?.1, &b, &json!({"acknowledgement":{"data":b64(ack)},"original_packet":p.json,"relayer":relayer}));
        self.done(&at, out)
    }
    pub fn timeout(&mut self, n: usize, seq: u64, relayer: &str) -> F {
        let at = self.chans[n].ctl.clone();
        let p = self.chans[n].pkts.remove(&seq).ok_or("no such packet")?;
        if self.chans[n].ordered {
            self.chans[n].st = St::Closed;
        }
        let b = self.blk(&at);
        let out = d::pkt_timeout(self.cell(&at)?.1, &b, &json!({"packet":p.json,"relayer":relayer}));
        self.done(&at, out)
    }
}
