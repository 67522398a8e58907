//! C28, C29: the repository's contracts that use the controller (an owner of controllers, a callback counter), run with
//! the controllers on one chain against a reference model.
mod chain;
use chain::*;
use icacheck::sim::{known_conn, read_ack, AckText, Opts};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::b64;
use vcommon::callbacks::callback;
use vcommon::gen::*;
use vcommon::meta::{self, Meta, Tri};
use vcommon::msgs::AMsg;
use vcommon::pb::W;
use vcommon::queries::AQuery;
use vcommon::resp::{self, Seed};
use vcommon::runner::{Obs, Property, Suite, SuiteDyn, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ica {
    /// one of those that exist
    Any(u8),
    Id(u64),
}
/// 255: the admin (of the owner contract in question)
const ADMIN: u8 = 255;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create { owner: u8, who: u8, salt: Option<String>, opts: Opts },
    Action { owner: u8, who: u8, ica: Ica, to: String },
    User { who: u8, cb: u8, opts: Opts },
    Send { sel: u8, msgs: Vec<AMsg>, queries: Vec<AQuery> },
    Reopen { sel: u8, opts: Option<Opts> },
    Callback { sel: u8, cb: u8 },
    Handshake { sel: u8, meta: Meta },
    Ack { sel: u8, error: Option<String>, seeds: Vec<Seed>, height: u64, relayer: u8 },
    Timeout { sel: u8, relayer: u8 },
    CloseConfirm { sel: u8 },
    /// a callback that no controller emitted, from anybody, once or several times
    Direct { target: u8, who: u8, times: u8, msg: Value },
    /// a request made directly to a controller of an owner contract
    Meddle { ctl: u8, who: u8, kind: u8 },
    Junk { target: u8, who: u8, kind: u8 },
    Wait(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    admins: [Option<u8>; 2],
    creators: [u8; 2],
    bad_admin: Option<u8>,
    code: u64,
    wrong_code: bool,
    time: u64,
    ops: Vec<Op>,
}

fn opts() -> BoxedStrategy<Opts> {
    prop_oneof![5 => icacheck::hist::opts().prop_map(|mut o| { o.port = None; if !known_conn(&o.conn) { o.conn = "connection-0".into() } o }), 1 => icacheck::hist::opts()].boxed()
}
fn op(counters: bool) -> BoxedStrategy<Op> {
    let (o, u) = if counters { (1u32, 3u32) } else { (2, 1) };
    let who = || prop_oneof![8 => Just(ADMIN), 1 => 0u8..5, 2 => any::<u8>()];
    let salt = prop_oneof![3 => Just(None), 4 => "[a-c]{1,2}".prop_map(Some), 1 => strings().prop_map(Some)];
    let meta = || prop_oneof![8 => meta::good(), 1 => meta::any_meta()];
    let ica = prop_oneof![10 => any::<u8>().prop_map(Ica::Any), 1 => (0u64..4).prop_map(Ica::Id), 1 => u64s().prop_map(Ica::Id)];
    prop_oneof![
        6 * o => (0u8..2, who(), salt, opts()).prop_map(|(owner, who, salt, opts)| Op::Create { owner, who, salt, opts }),
        10 * o => (0u8..2, who(), ica, addrs()).prop_map(|(owner, who, ica, to)| Op::Action { owner, who, ica, to }),
        5 * u => (0u8..5, any::<u8>(), opts()).prop_map(|(who, cb, opts)| Op::User { who, cb, opts }),
        12 * u => (any::<u8>(), proptest::collection::vec(vcommon::msgs::simple(), 0..3), proptest::collection::vec(vcommon::queries::simple(), 0..3)).prop_map(|(sel, msgs, queries)| Op::Send { sel, msgs, queries }),
        3 => (any::<u8>(), opt(opts())).prop_map(|(sel, opts)| Op::Reopen { sel, opts }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(sel, cb)| Op::Callback { sel, cb }),
        11 + 3 * u => (any::<u8>(), meta()).prop_map(|(sel, meta)| Op::Handshake { sel, meta }),
        10 + 8 * u => (any::<u8>(), proptest::option::weighted(0.3, strings()), proptest::collection::vec(resp::seeds(), 0..3), u64s(), any::<u8>()).prop_map(|(sel, error, seeds, height, relayer)| Op::Ack { sel, error, seeds, height, relayer }),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(sel, relayer)| Op::Timeout { sel, relayer }),
        1 => any::<u8>().prop_map(|sel| Op::CloseConfirm { sel }),
        4 => (0u8..4, any::<u8>(), prop_oneof![4 => Just(1u8), 1 => 2u8..4], callback()).prop_map(|(target, who, times, mut msg)| {
            // the owner contract is built without queries
            let a = &mut msg["receive_ica_callback"]["on_acknowledgement_packet_callback"];
            if target < 2 && a.is_object() {
                a.as_object_mut().unwrap().remove("query_result");
            } else if a.is_null() {
                msg["receive_ica_callback"].as_object_mut().unwrap().remove("on_acknowledgement_packet_callback");
            }
            Op::Direct { target, who, times, msg }
        }),
        2 => (any::<u8>(), any::<u8>(), 0u8..6).prop_map(|(ctl, who, kind)| Op::Meddle { ctl, who, kind }),
        1 => (0u8..4, who(), 0u8..6).prop_map(|(target, who, kind)| Op::Junk { target, who, kind }),
        3 => (0u32..2000).prop_map(Op::Wait),
    ]
    .boxed()
}
fn systems(t: Tier) -> BoxedStrategy<Case> {
    cases(t, false)
}
fn counters(t: Tier) -> BoxedStrategy<Case> {
    cases(t, true)
}
fn cases(t: Tier, counters: bool) -> BoxedStrategy<Case> {
    let max = if t == Tier::Quick { 40 } else { 120 };
    let n = if counters { 0..1 } else { 0..3 };
    let prelude = (proptest::collection::vec(("[a-c]{1,2}", opts(), 0u8..2), n), proptest::collection::vec((0u8..5, 1u8..5, opts()), if counters { 1..3 } else { 0..1 }), proptest::collection::vec(meta::good(), 3), any::<bool>());
    (
        [proptest::option::of(0u8..3), proptest::option::of(0u8..3)],
        [0u8..2, 0u8..2],
        proptest::option::weighted(0.04, any::<u8>()),
        u64s(),
        proptest::bool::weighted(0.1),
        prop_oneof![6 => (1_600_000_000u64..1_900_000_000).prop_map(|s| s * 1_000_000_000 + 7), 1 => any::<u64>().prop_map(|t| t / 4)],
        prelude,
        proptest::collection::vec(op(counters), 4..max),
    )
        .prop_map(|(admins, creators, bad_admin, code, wrong_code, time, (creates, users, metas, connect), ops)| {
            let mut v = vec![];
            for (s, o, owner) in creates {
                v.push(Op::Create { owner, who: ADMIN, salt: Some(s), opts: o });
            }
            v.extend(users.into_iter().map(|(who, cb, opts)| Op::User { who, cb, opts }));
            if connect {
                v.extend(metas.into_iter().map(|meta| Op::Handshake { sel: 0, meta }));
            }
            v.extend(ops);
            Case { admins, creators, bad_admin, code, wrong_code, time, ops: v }
        })
        .boxed()
}

struct Viol(&'static str, String);
type R<T = ()> = Result<T, Viol>;
const OWNER: &str = "C28";
const COUNTER: &str = "C29";
fn viol<T>(p: &'static str, s: impl Into<String>) -> R<T> {
    Err(Viol(p, s.into()))
}

#[derive(Clone, Default)]
struct Ctl {
    owner: String,
    cb: Option<String>,
    /// channel and whether it is open
    tracked: Option<(usize, bool)>,
    ica: String,
}
struct OwnerM {
    admin: String,
    code: u64,
    icas: Vec<(String, Value)>,
    /// seconds of the creations without a salt
    unsalted: BTreeSet<u64>,
}
struct World {
    ch: Chain,
    owners: BTreeMap<String, OwnerM>,
    counters: BTreeMap<String, [Vec<Value>; 3]>,
    ctls: BTreeMap<String, Ctl>,
    apps: Vec<String>,
    users: u32,
    classes: BTreeSet<&'static str>,
    actions: u32,
    connected: BTreeSet<String>,
}
fn actor(i: u8) -> String {
    icacheck::driver::actor(i)
}
fn named(s: &str) -> String {
    cosmwasm_std::testing::MockApi::default().addr_make(s).to_string()
}
/// without absent and null members
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}
fn same(p: &'static str, what: &str, got: &Value, want: &Value) -> R {
    if strip(got) != strip(want) {
        return viol(p, format!("{what} is {got}, should be {want}"));
    }
    Ok(())
}

impl World {
    fn who(&self, k: u8, of: &str) -> String {
        if k == ADMIN {
            if let Some(o) = self.owners.get(of) {
                return o.admin.clone();
            }
        }
        let mut v: Vec<String> = (0..5).map(actor).collect();
        v.extend(self.apps.iter().cloned());
        v.extend(self.ctls.keys().cloned());
        v[k as usize % v.len()].clone()
    }
    fn target(&self, k: u8) -> Option<String> {
        match k % 7 {
            0 => None,
            1..=3 => Some(self.apps[2].clone()),
            4 => Some(self.apps[3].clone()),
            5 => Some(self.apps[0].clone()),
            _ => Some(actor(4)),
        }
    }
    fn owned(&self, ctl: &str) -> Option<(String, usize)> {
        self.owners.iter().find_map(|(a, o)| o.icas.iter().position(|i| i.0 == ctl).map(|i| (a.clone(), i)))
    }
    /// does the contract at `to` accept a callback from `ctl`?
    fn accepts(&self, to: &str, from: &str) -> bool {
        if let Some(o) = self.owners.get(to) {
            return o.icas.iter().any(|i| i.0 == from);
        }
        self.counters.contains_key(to)
    }
    /// an accepted callback takes effect in the model
    fn received(&mut self, to: &str, from: &str, msg: &Value) {
        let m = &msg["receive_ica_callback"];
        if let Some(o) = self.owners.get_mut(to) {
            let c = &m["on_channel_open_ack_callback"];
            if !c.is_null() {
                let i = o.icas.iter().position(|i| i.0 == from).unwrap();
                o.icas[i].1 = json!({"ica_id":i,"ica_addr":c["ica_address"],"tx_encoding":c["tx_encoding"],"channel_state":{"channel":c["channel"],"channel_status":"STATE_OPEN"}});
                self.classes.insert("owner_recorded_handshake");
            } else {
                self.classes.insert("owner_ignored_packet_event");
            }
        }
        if let Some(c) = self.counters.get_mut(to) {
            let (a, t) = (&m["on_acknowledgement_packet_callback"], &m["on_timeout_packet_callback"]);
            if !a.is_null() {
                c[usize::from(a["ica_acknowledgement"].get("error").is_some())].push(m.clone());
                self.classes.insert("counted_acknowledgement");
                if !a["query_result"].is_null() {
                    self.classes.insert("counted_query_result");
                }
            } else if !t.is_null() {
                c[2].push(m.clone());
                self.classes.insert("counted_timeout");
            } else {
                self.classes.insert("counter_ignored_handshake");
            }
        }
    }
    fn open(&self, ctl: &str) -> bool {
        self.ctls.get(ctl).is_some_and(|c| c.tracked.is_some_and(|t| t.1))
    }
    fn closed(&mut self, n: usize) {
        let c = self.ctls.get_mut(&self.ch.chans[n].ctl).unwrap();
        if let Some(t) = &mut c.tracked {
            if t.0 == n {
                t.1 = false;
            }
        }
    }
    /// an event on a controller, whose callback (if any) must arrive at its address with this body
    fn event(&mut self, prop: &str, ctl: &str, r: F, must: bool, body: Value, what: &str) -> R<bool> {
        let cb = self.ctls[ctl].cb.clone();
        let ok = cb.as_ref().is_none_or(|a| self.accepts(a, ctl));
        let p = cb.as_ref().map_or(prop_of(prop), |a| if self.owners.contains_key(a) { OWNER } else { COUNTER });
        match r {
            Err(e) => {
                if ok && must {
                    return viol(p, format!("{what} of controller {ctl} (callbacks to {cb:?}) fails: {e}"));
                }
                self.classes.insert("event_failed");
                Ok(false)
            }
            Ok(()) => {
                if !ok {
                    return viol(p, format!("{what} of controller {ctl} takes effect although {cb:?} has to refuse the callback"));
                }
                let calls: Vec<_> = self.ch.log.clone().into_iter().filter_map(|e| if let Ev::Call { to, from, msg } = e { Some((to, from, msg)) } else { None }).collect();
                let want: Vec<String> = cb.into_iter().collect();
                if calls.iter().map(|c| c.0.clone()).collect::<Vec<_>>() != want {
                    return viol(p, format!("{what}: callbacks {calls:?}, should go to {want:?}"));
                }
                for (to, from, msg) in calls {
                    let mut m = msg.clone();
                    for k in m["receive_ica_callback"].as_object_mut().into_iter().flatten() {
                        k.1.as_object_mut().map(|o| o.remove("query_result"));
                    }
                    same(p, what, &m, &json!({"receive_ica_callback":body}))?;
                    self.received(&to, &from, &msg);
                }
                Ok(true)
            }
        }
    }
    fn expect_opening(&self, ctl: &str, o: &Opts) -> R {
        let n: Vec<usize> = self.ch.log.iter().filter_map(|e| if let Ev::Opening(n) = e { Some(*n) } else { None }).collect();
        let [n] = n[..] else { return viol(OWNER, format!("{} openings", n.len())) };
        let c = &self.ch.chans[n];
        let m: Value = serde_json::from_str(&c.version).unwrap_or_default();
        if c.ctl != ctl || c.conn != o.conn || c.ordered != o.ordered() || c.port != o.port() || m != o.metadata() {
            return viol(OWNER, format!("opens {} with {}, options are {o:?}", c.ctl, c.json()));
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        let apps = self.apps.clone();
        match op {
            Op::Wait(s) => {
                self.ch.time = self.ch.time.saturating_add(u64::from(*s) * 1_000_000_000 / 3);
                self.ch.height += u64::from(*s) + 1;
            }
            Op::Create { owner, who, salt, opts } => {
                let (at, by) = (apps[*owner as usize].clone(), self.who(*who, &apps[*owner as usize]));
                let (now, code) = (self.ch.time / 1_000_000_000, self.ch.code);
                let o = &self.owners[&at];
                let want = salt.as_ref().and_then(|s| predictable(code, &at, s.as_bytes()));
                let free = match salt {
                    Some(_) => want.as_ref().is_some_and(|a| !self.ch.cws.contains_key(a)),
                    None => true,
                };
                let may = o.admin == by && o.code == code && free && known_conn(&opts.conn) && opts.port() == "icahost";
                // without a salt, a second account in the same second may collide
                let must = may && (salt.is_some() || !o.unsalted.contains(&now));
                let r = self.ch.tx(|c| c.execute(&by, &at, &json!({"create_ica_contract":{"salt":salt,"channel_open_init_options":opts.json()}})));
                match r {
                    Err(e) if must => {
                        // the chosen salt may be the default one of an earlier creation
                        return viol(OWNER, format!("the admin's create of {opts:?} with salt {salt:?} fails: {e}"));
                    }
                    Err(_) => {
                        self.classes.insert(if o.admin == by { "create_refused_by_chain" } else { "create_refused" });
                    }
                    Ok(()) if !may => return viol(OWNER, format!("create by {by} (admin {}) with salt {salt:?}, {opts:?} is accepted", o.admin)),
                    Ok(()) => {
                        let made: Vec<_> = self.ch.log.clone().into_iter().filter_map(|e| if let Ev::Instantiated { addr, by, admin, msg } = e { Some((addr, by, admin, msg)) } else { None }).collect();
                        let [(addr, by, admin, msg)] = &made[..] else { return viol(OWNER, format!("instantiates {made:?}")) };
                        if want.as_ref().is_some_and(|w| w != addr) || by != &at {
                            return viol(OWNER, format!("the controller is at {addr} (created by {by}), the salt gives {want:?}"));
                        }
                        if admin.as_deref() != Some(&at) {
                            return viol(OWNER, format!("admin of the controller is {admin:?}, should be {at}"));
                        }
                        same(OWNER, "owner of the new controller", &msg["owner"], &json!(at))?;
                        same(OWNER, "callback address of the new controller", &msg["send_callbacks_to"], &json!(at))?;
                        self.expect_opening(addr, opts)?;
                        let addr = addr.clone();
                        self.ctls.insert(addr.clone(), Ctl { owner: at.clone(), cb: Some(at.clone()), ..Ctl::default() });
                        let o = self.owners.get_mut(&at).unwrap();
                        o.icas.push((addr, Value::Null));
                        if salt.is_none() {
                            o.unsalted.insert(now);
                            self.classes.insert("created_without_salt");
                        }
                        self.classes.insert("created");
                        if o.icas.len() > 1 {
                            self.classes.insert("several_accounts_of_one_owner");
                        }
                    }
                }
            }
            Op::Action { owner, who, ica, to } => {
                let (at, by) = (apps[*owner as usize].clone(), self.who(*who, &apps[*owner as usize]));
                let o = &self.owners[&at];
                let ica = &match ica {
                    Ica::Any(k) if !o.icas.is_empty() => u64::from(*k) % o.icas.len() as u64,
                    Ica::Any(k) => u64::from(*k),
                    Ica::Id(n) => *n,
                };
                let ctl = usize::try_from(*ica).ok().and_then(|i| o.icas.get(i)).map(|i| i.0.clone());
                let may = o.admin == by && ctl.as_ref().is_some_and(|c| self.open(c)) && self.ch.time.checked_add(600_000_000_000).is_some();
                self.ch.asking = (vec![], 1);
                let r = self.ch.tx(|c| c.execute(&by, &at, &json!({"send_predefined_action":{"ica_id":ica,"to_address":to}})));
                match r {
                    Err(e) if may => return viol(OWNER, format!("the admin's action on account {ica} fails: {e}")),
                    Err(_) => {
                        self.classes.insert("action_refused");
                    }
                    Ok(()) if !may => return viol(OWNER, format!("action by {by} (admin {}) on account {ica} is accepted", o.admin)),
                    Ok(()) => {
                        let ctl = ctl.unwrap();
                        let sent: Vec<_> = self.ch.log.clone().into_iter().filter_map(|e| if let Ev::Sent { chan, data, timeout, .. } = e { Some((chan, data, timeout)) } else { None }).collect();
                        let [(chan, data, timeout)] = &sent[..] else { return viol(OWNER, format!("the action sends {} packets", sent.len())) };
                        if Some((*chan, true)) != self.ctls[&ctl].tracked {
                            return viol(OWNER, format!("the action on account {ica} is sent on {}, channel of controller {}", self.ch.chans[*chan].id, self.ch.chans[*chan].ctl));
                        }
                        if timeout.get("block").is_some_and(|b| !b.is_null()) || timeout["timestamp"] != json!((self.ch.time + 600_000_000_000).to_string()) {
                            return viol(OWNER, format!("timeout of the action is {timeout} at {}", self.ch.time));
                        }
                        let m = AMsg::BankSend { to: to.clone(), amount: vec![Coin { denom: "stake".into(), amount: "100".into() }] };
                        let p = vcommon::host::read_packet(data).or_else(|e| viol(OWNER, e))?;
                        if !p.typ_ok || !p.memo.is_empty() {
                            return viol(OWNER, format!("packet of the action: type ok {}, memo {:?}", p.typ_ok, p.memo));
                        }
                        vcommon::host::check_tx(&p.data, &self.ctls[&ctl].ica, &[m], &[]).or_else(|e| viol(OWNER, e.1))?;
                        if self.ch.log.len() != 3 {
                            return viol(OWNER, format!("the action does {:?}", self.ch.log));
                        }
                        self.actions += 1;
                        self.classes.insert("action_sent");
                    }
                }
            }
            Op::User { who, cb, opts } => {
                let (by, cb) = (actor(*who), self.target(*cb));
                let at = named(&format!("user-controller-{}", self.users));
                self.users += 1;
                let may = known_conn(&opts.conn) && opts.port() == "icahost";
                let msg = json!({"owner":null,"send_callbacks_to":cb,"channel_open_init_options":opts.json()});
                match self.ch.tx(|c| c.instantiate(Kind::Controller, &at, &by, None, &msg)) {
                    Err(e) if may => return viol(COUNTER, format!("a controller with {msg} cannot be instantiated: {e}")),
                    Err(_) => {}
                    Ok(()) => {
                        self.ctls.insert(at, Ctl { owner: by, cb, ..Ctl::default() });
                    }
                }
            }
            Op::Send { sel, msgs, queries } => {
                let Some(at) = self.user(*sel, |w, c| w.open(c)) else { return Ok(()) };
                let by = self.ctls[&at].owner.clone();
                self.ch.asking = (queries.clone(), msgs.len());
                let m: Vec<Value> = msgs.iter().map(AMsg::json).collect();
                let q: Vec<Value> = queries.iter().map(AQuery::json).collect();
                let r = self.ch.tx(|c| c.execute(&by, &at, &json!({"send_cosmos_msgs":{"messages":m,"queries":q,"packet_memo":null,"timeout_seconds":null}})));
                if r.is_ok() {
                    self.classes.insert("user_sent");
                }
            }
            Op::Reopen { sel, opts } => {
                let Some(at) = self.user(*sel, |w, c| !w.open(c)) else { return Ok(()) };
                let by = self.ctls[&at].owner.clone();
                let o = opts.as_ref().map(Opts::json);
                if self.ch.tx(|c| c.execute(&by, &at, &json!({"create_channel":{"channel_open_init_options":o}}))).is_ok() {
                    self.classes.insert("user_reopened");
                }
            }
            Op::Callback { sel, cb } => {
                let Some(at) = self.user(*sel, |_, _| true) else { return Ok(()) };
                let (by, cb) = (self.ctls[&at].owner.clone(), self.target(*cb));
                if self.ch.tx(|c| c.execute(&by, &at, &json!({"update_callback_address":{"callback_address":cb}}))).is_ok() {
                    self.ctls.get_mut(&at).unwrap().cb = cb;
                }
            }
            Op::Handshake { sel, meta } => {
                let pend: Vec<usize> = (0..self.ch.chans.len()).filter(|n| self.ch.chans[*n].st == St::Init).collect();
                if pend.is_empty() {
                    return Ok(());
                }
                let n = pend[*sel as usize % pend.len()];
                let c = self.ch.chans[n].clone();
                let (text, tri, open) = (meta.render(&c.conn), meta.judge(&c.conn, true), self.open(&c.ctl));
                // counterparties on other chains may use the same channel id
                let cp = if sel % 2 == 0 && !self.ch.chans.iter().any(|x| x.conn == c.conn && x.cp_chan == "channel-7") { "channel-7".to_string() } else { format!("channel-{}", 100 + n) };
                let r = self.ch.tx(|x| x.open_ack(n, &text, &cp));
                if r.is_ok() && (open || tri == Tri::No) {
                    self.classes.insert("controller_deviates");
                    return Ok(());
                }
                let mut j = c;
                j.version = text;
                j.cp_chan = cp;
                let body = json!({"on_channel_open_ack_callback":{"channel":j.json(),"ica_address":meta.addr,"tx_encoding":"proto3"}});
                if self.event(COUNTER, &j.ctl, r, tri == Tri::Yes && !open, body, "handshake")? {
                    let c = self.ctls.get_mut(&j.ctl).unwrap();
                    c.tracked = Some((n, true));
                    c.ica = meta.addr.clone();
                    if self.owned(&j.ctl).is_some() {
                        self.connected.insert(j.ctl);
                    }
                }
            }
            Op::Ack { sel, error, seeds, height, relayer } => {
                let Some((n, s)) = self.packet(*sel) else { return Ok(()) };
                let (p, ctl) = (self.ch.chans[n].pkts[&s].clone(), self.ch.chans[n].ctl.clone());
                let rel = self.who(*relayer, "");
                let (ack, body) = match error {
                    Some(e) => (json!({"error":e}), json!({"error":e})),
                    None => {
                        let mut w = W::new();
                        for _ in 0..p.nmsgs {
                            w = w.msg(2, W::new().str(1, "/cosmos.bank.v1beta1.MsgSendResponse"));
                        }
                        if !p.queries.is_empty() {
                            let (b, _) = resp::answer(&p.queries, seeds, *height, None);
                            w = w.msg(2, W::new().str(1, "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse").bytes(2, &b));
                        }
                        let v = json!({"result":b64(&w.0)});
                        (v.clone(), v)
                    }
                };
                let ack = ack.to_string().into_bytes();
                debug_assert!(!matches!(read_ack(&ack), AckText::Bad));
                let r = self.ch.tx(|c| c.ack(n, s, &ack, &rel));
                let body = json!({"on_acknowledgement_packet_callback":{"ica_acknowledgement":body,"original_packet":p.json,"relayer":rel}});
                self.event(COUNTER, &ctl, r, true, body, "acknowledgement")?;
            }
            Op::Timeout { sel, relayer } => {
                let Some((n, s)) = self.packet(*sel) else { return Ok(()) };
                let (p, ctl) = (self.ch.chans[n].pkts[&s].clone(), self.ch.chans[n].ctl.clone());
                let rel = self.who(*relayer, "");
                let r = self.ch.tx(|c| c.timeout(n, s, &rel));
                let body = json!({"on_timeout_packet_callback":{"original_packet":p.json,"relayer":rel}});
                if self.event(COUNTER, &ctl, r, true, body, "timeout")? && self.ch.chans[n].ordered {
                    self.closed(n);
                }
            }
            Op::CloseConfirm { sel } => {
                let open: Vec<usize> = (0..self.ch.chans.len()).filter(|n| self.ctls.values().any(|c| c.tracked == Some((*n, true)))).collect();
                if open.is_empty() {
                    return Ok(());
                }
                let n = open[*sel as usize % open.len()];
                if self.ch.tx(|c| c.close_confirm(n)).is_ok() {
                    self.closed(n);
                    self.classes.insert("closed_by_counterparty");
                }
            }
            Op::Direct { target, who, times, msg } => {
                let (at, by) = (apps[*target as usize].clone(), self.who(*who, &apps[*target as usize]));
                let ok = self.accepts(&at, &by);
                let p = if *target < 2 { OWNER } else { COUNTER };
                for _ in 0..*times {
                    match self.ch.tx(|c| c.execute(&by, &at, msg)) {
                        Ok(()) if !ok => return viol(p, format!("a callback from {by}, which is not one of its controllers, is accepted: {msg}")),
                        Err(e) if ok => return viol(p, format!("a callback from {by} is refused: {e}")),
                        Ok(()) => {
                            self.classes.insert("direct_callback");
                            if self.ch.log.len() != 1 {
                                return viol(p, format!("a callback leads to {:?}", self.ch.log));
                            }
                            self.received(&at, &by, msg);
                        }
                        Err(_) => {
                            self.classes.insert("foreign_callback_refused");
                        }
                    }
                }
            }
            Op::Meddle { ctl, who, kind } => {
                let all: Vec<String> = self.owners.values().flat_map(|o| o.icas.iter().map(|i| i.0.clone())).collect();
                if all.is_empty() {
                    return Ok(());
                }
                let at = all[*ctl as usize % all.len()].clone();
                let by = self.who(*who, &at);
                if self.ctls[&at].owner == by {
                    return Ok(());
                }
                let m = match kind {
                    0 => json!({"create_channel":{}}),
                    1 => json!({"close_channel":{}}),
                    2 => json!({"send_cosmos_msgs":{"messages":[]}}),
                    3 => json!({"update_callback_address":{"callback_address":null}}),
                    4 => json!({"update_ownership":{"transfer_ownership":{"new_owner":by}}}),
                    _ => json!({"update_ownership":"accept_ownership"}),
                };
                self.ch.asking = (vec![], 0);
                if self.ch.tx(|c| c.execute(&by, &at, &m)).is_ok() {
                    return viol(OWNER, format!("{by} operates controller {at} of {} directly: {m}", self.ctls[&at].owner));
                }
                self.classes.insert("meddling_refused");
            }
            Op::Junk { target, who, kind } => {
                let (at, by) = (apps[*target as usize].clone(), self.who(*who, &apps[*target as usize]));
                let m = match kind {
                    0 => json!({"unknown":{}}),
                    1 => json!({"receive_ica_callback":{}}),
                    2 => json!({"receive_ica_callback":{"on_unknown_callback":{}}}),
                    3 => json!({"create_ica_contract":{"salt":"x"}}),
                    4 => json!({"send_predefined_action":{"ica_id":0}}),
                    _ => json!("receive_ica_callback"),
                };
                if self.ch.tx(|c| c.execute(&by, &at, &m)).is_ok() {
                    return viol(if *target < 2 { OWNER } else { COUNTER }, format!("{m} is accepted"));
                }
            }
        }
        Ok(())
    }
    fn user(&self, sel: u8, f: impl Fn(&World, &str) -> bool) -> Option<String> {
        let v: Vec<&String> = self.ctls.iter().filter(|(a, c)| !self.owners.contains_key(&c.owner) && f(self, a)).map(|x| x.0).collect();
        (!v.is_empty()).then(|| v[sel as usize % v.len()].clone())
    }
    fn packet(&self, sel: u8) -> Option<(usize, u64)> {
        let v: Vec<(usize, u64)> = self.ch.chans.iter().enumerate().flat_map(|(n, c)| c.pkts.keys().map(move |s| (n, *s))).collect();
        (!v.is_empty()).then(|| v[sel as usize % v.len()])
    }
    fn compare(&self) -> R {
        for (at, o) in &self.owners {
            let ask = |m: Value| self.ch.query(at, &m);
            let st = ask(json!({"get_contract_state":{}})).or_else(|e| viol(OWNER, e))?;
            same(OWNER, "state of the owner contract", &st, &json!({"admin":o.admin,"ica_controller_code_id":o.code}))?;
            match ask(json!({"get_ica_count":{}})) {
                Ok(n) => same(OWNER, "number of accounts", &n, &json!(o.icas.len()))?,
                Err(e) if !o.icas.is_empty() => return viol(OWNER, format!("count query fails: {e}")),
                Err(_) => {}
            }
            for (i, (ctl, rec)) in o.icas.iter().enumerate() {
                let v = ask(json!({"get_ica_contract_state":{"ica_id":i}})).or_else(|e| viol(OWNER, format!("account {i}: {e}")))?;
                same(OWNER, "record of the account", &v, &json!({"contract_addr":ctl,"ica_state":rec}))?;
                let own = self.ch.query(ctl, &json!({"ownership":{}})).or_else(|e| viol(OWNER, e))?;
                same(OWNER, "owner of the controller", &own, &json!({"owner":at}))?;
                let s = self.ch.query(ctl, &json!({"get_contract_state":{}})).or_else(|e| viol(OWNER, e))?;
                same(OWNER, "callback address of the controller", &s["callback_address"], &json!(at))?;
            }
            if let Ok(v) = ask(json!({"get_ica_contract_state":{"ica_id":o.icas.len()}})) {
                return viol(OWNER, format!("an account that was never created is reported: {v}"));
            }
        }
        for (at, c) in &self.counters {
            let v = self.ch.query(at, &json!({"get_callback_counter":{}})).or_else(|e| viol(COUNTER, e))?;
            same(COUNTER, "callback counter", &v, &json!({"success":c[0],"error":c[1],"timeout":c[2]}))?;
        }
        Ok(())
    }
}
fn prop_of(p: &str) -> &'static str {
    if p == OWNER {
        OWNER
    } else {
        COUNTER
    }
}

fn run(c: &Case) -> (Option<World>, R) {
    let apps: Vec<String> = ["owner-0", "owner-1", "counter-0", "counter-1"].iter().map(|s| named(s)).collect();
    let mut w = World {
        ch: Chain { height: 1000, time: c.time, code: c.code, cws: BTreeMap::new(), chans: vec![], log: vec![], asking: (vec![], 0) },
        owners: BTreeMap::new(),
        counters: BTreeMap::new(),
        ctls: BTreeMap::new(),
        apps: apps.clone(),
        users: 0,
        classes: BTreeSet::new(),
        actions: 0,
        connected: BTreeSet::new(),
    };
    for i in 0..2 {
        let by = actor(c.creators[i]);
        let code = if i == 1 && c.wrong_code { c.code.wrapping_add(1) } else { c.code };
        if let (0, Some(k)) = (i, c.bad_admin) {
            let bad = icacheck::driver::bad_addr(k);
            if w.ch.tx(|x| x.instantiate(Kind::Owner, &apps[0], &by, None, &json!({"admin":bad,"ica_controller_code_id":code}))).is_ok() {
                return (None, viol(OWNER, format!("the invalid admin {bad:?} is accepted")));
            }
        }
        let admin = c.admins[i].map(actor);
        let r = w.ch.tx(|x| x.instantiate(Kind::Owner, &apps[i], &by, None, &json!({"admin":admin,"ica_controller_code_id":code})));
        if let Err(e) = r {
            return (None, viol(OWNER, format!("instantiation fails: {e}")));
        }
        w.owners.insert(apps[i].clone(), OwnerM { admin: admin.unwrap_or(by), code, icas: vec![], unsalted: BTreeSet::new() });
    }
    for i in 2..4 {
        if let Err(e) = w.ch.tx(|x| x.instantiate(Kind::Counter, &apps[i], &actor(0), None, &json!({}))) {
            return (None, viol(COUNTER, format!("instantiation fails: {e}")));
        }
        w.counters.insert(apps[i].clone(), Default::default());
    }
    for op in &c.ops {
        if let Err(v) = w.step(op).and_then(|()| w.compare()) {
            return (Some(w), Err(Viol(v.0, format!("{op:?}: {}", v.1))));
        }
    }
    (Some(w), Ok(()))
}
fn verdict(id: &'static str, c: &Case) -> Obs {
    let mut o = Obs::default();
    let (w, r) = run(c);
    if let Some(w) = w {
        for x in &w.classes {
            o.class(*x);
        }
        let kinds = w.counters.values().map(|c| c.iter().filter(|v| !v.is_empty()).count()).max().unwrap_or(0);
        let total: usize = w.counters.values().flatten().map(Vec::len).sum();
        o.nontrivial = if id == OWNER { w.ctls.len() > 1 && !w.connected.is_empty() && w.actions > 0 } else { kinds > 1 && total > 2 };
    }
    if let Err(v) = r {
        if v.0 == id {
            o.fail(v.1);
        } else {
            o.class(format!("stopped_by_{}", v.0));
        }
    }
    o
}
fn main() {
    let v = ["owner-0", "owner-1", "counter-0"].iter().map(|s| named(s)).chain((0..5).map(actor)).collect();
    vcommon::gen::KNOWN.set(v).unwrap();
    let suite = |name, make, check: fn(&Case) -> Obs| vec![Box::new(Suite { name, quick: 6000, thorough: 400_000, make, check }) as Box<dyn SuiteDyn>];
    let a = vec!["the chain behaves as wasmd/ibc-go: atomic transactions, messages executed depth first, predictable addresses for Instantiate2"];
    let props = vec![
        Property {
            id: OWNER,
            rule: "a history is non-trivial when at least two controllers exist, a handshake of an owner contract's controller completed and a predefined action was sent",
            suites: suite("owners", systems, |c| verdict(OWNER, c)),
            assumptions: a.clone(),
        },
        Property {
            id: COUNTER,
            rule: "a history is non-trivial when a counter recorded at least two kinds of outcomes and at least three outcomes were recorded",
            suites: suite("counters", counters, |c| verdict(COUNTER, c)),
            assumptions: a,
        },
    ];
    std::process::exit(vcommon::runner::main(props));
}
