//! Generation, shrinking, replay files and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a check observed on one case.
#[derive(Default, Clone)]
pub struct Obs {
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Obs {
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn fail(&mut self, s: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(s.into());
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Cfg {
    pub property: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub out: String,
    pub scale: f64,
    /// generation stops here even if cases are left
    pub deadline: Instant,
}

pub struct Report {
    pub suite: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub nontrivial: u64,
    pub samples: Vec<Value>,
    pub classes: BTreeMap<String, u64>,
    pub failure: Option<(Value, String, u32)>,
}

pub trait SuiteDyn: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cfg: &Cfg) -> Report;
    fn replay(&self, case: &Value) -> Result<Obs, String>;
    /// the `i`th case of thread `t` again, shrunk as long as `fails` says so
    fn again(&self, cfg: &Cfg, t: usize, i: u64, fails: &mut dyn FnMut(&Value) -> bool) -> (Value, u32);
}

pub struct Suite<C> {
    pub name: &'static str,
    /// cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub make: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C) -> Obs,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// panics of the code under test are caught by the drivers; keep them off the terminal
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string());
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// What the threads are working on, for whoever has to find out why the process died: a file per suite and thread with
/// the number of the current case, and a watchdog for cases that do not end.
struct Trace {
    file: Option<std::fs::File>,
    slot: usize,
}
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
#[derive(Clone)]
struct Slot {
    tid: String,
    label: String,
    /// number of the case, serial number of what is being evaluated
    case: u64,
    serial: u64,
    seen: (u64, u64),
    live: bool,
}
impl Trace {
    fn new(label: String) -> Trace {
        let tid = std::fs::read_link("/proc/thread-self").map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).unwrap_or_default();
        let file = std::env::var("VERIF_CHILD").ok().and_then(|d| std::fs::File::create(format!("{d}/{label}")).ok());
        let mut s = SLOTS.lock().unwrap();
        s.push(Slot { tid, label, case: 0, serial: 0, seen: (u64::MAX, 0), live: false });
        Trace { file, slot: s.len() - 1 }
    }
    fn at(&self, case: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let _ = f.write_all_at(&case.to_le_bytes(), 0);
        }
        let mut s = SLOTS.lock().unwrap();
        let s = &mut s[self.slot];
        s.case = case;
        s.serial += 1;
        s.live = case != u64::MAX;
    }
}
impl Drop for Trace {
    fn drop(&mut self) {
        self.at(u64::MAX);
    }
}
fn cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let v: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}
/// ends the process when a single case uses this much processor time (cases take milliseconds)
fn watchdog() {
    let limit = env_u64("VERIF_HANG", 30) * 100;
    let parent = std::os::unix::process::parent_id();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        // nobody is left to report to
        if std::os::unix::process::parent_id() != parent {
            std::process::exit(3);
        }
        let mut g = SLOTS.lock().unwrap();
        for s in g.iter_mut().filter(|s| s.live) {
            let Some(now) = cpu_ticks(&s.tid) else { continue };
            if s.seen.0 != s.serial {
                s.seen = (s.serial, now);
            } else if now - s.seen.1 > limit {
                eprintln!("a case does not end: {} {}", s.label, s.case);
                if let Ok(d) = std::env::var("VERIF_CHILD") {
                    let _ = std::fs::write(format!("{d}/hang"), &s.label);
                }
                std::process::abort();
            }
        }
    });
}

fn hash64(v: &[u8]) -> u64 {
    u64::from_le_bytes(Sha256::digest(v)[..8].try_into().unwrap())
}

fn guarded<C>(f: fn(&C) -> Obs, c: &C) -> Obs {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c))) {
        Ok(o) => o,
        Err(_) => {
            // a panic of the harness itself is an error of the check, not a verdict
            eprintln!("HARNESS PANIC: {}", last_panic());
            std::process::exit(3);
        }
    }
}

impl<C> SuiteDyn for Suite<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn replay(&self, case: &Value) -> Result<Obs, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self.check, &c))
    }
    fn again(&self, cfg: &Cfg, t: usize, i: u64, fails: &mut dyn FnMut(&Value) -> bool) -> (Value, u32) {
        let mut runner = source(cfg, self.name, t);
        let strat = (self.make)(cfg.tier);
        for _ in 0..i {
            strat.new_tree(&mut runner).expect("generator");
        }
        let mut tree = strat.new_tree(&mut runner).expect("generator");
        let case = tree.current();
        if !fails(&serde_json::to_value(&case).unwrap()) {
            return (Value::Null, 0);
        }
        let (c, _, steps) = shrink(&mut *tree, case, String::new(), 120, |c| fails(&serde_json::to_value(c).unwrap()).then(String::new));
        (serde_json::to_value(&c).unwrap(), steps)
    }
    fn run(&self, cfg: &Cfg) -> Report {
        let total = ((if cfg.tier == Tier::Quick { self.quick } else { self.thorough }) as f64 * cfg.scale).ceil() as u64;
        let cap = cfg.deadline;
        let stop = AtomicBool::new(false);
        let evals = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let classes: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
        let failure: Mutex<Option<(Value, String, u32)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for t in 0..cfg.threads {
                let (stop, evals, nontriv, distinct, classes, samples, failure) = (&stop, &evals, &nontriv, &distinct, &classes, &samples, &failure);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut runner = source(cfg, self.name, t);
                        let strat = (self.make)(cfg.tier);
                        let n = total / cfg.threads as u64 + u64::from((t as u64) < total % cfg.threads as u64);
                        let mut local: BTreeMap<String, u64> = BTreeMap::new();
                        let mut seen: HashSet<u64> = HashSet::new();
                        let trace = Trace::new(format!("{}.{t}", self.name));
                        for i in 0..n {
                            if stop.load(SeqCst) || Instant::now() > cap {
                                break;
                            }
                            let mut tree = strat.new_tree(&mut runner).expect("generator");
                            let case = tree.current();
                            trace.at(i);
                            let o = guarded(self.check, &case);
                            evals.fetch_add(1, SeqCst);
                            for c in &o.classes {
                                *local.entry(c.clone()).or_default() += 1;
                            }
                            if o.nontrivial {
                                nontriv.fetch_add(1, SeqCst);
                                let js = serde_json::to_vec(&case).unwrap();
                                seen.insert(hash64(&js));
                                if t == 0 && i > n / 3 && js.len() < 3000 {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 {
                                        s.push(serde_json::from_slice(&js).unwrap());
                                    }
                                }
                            }
                            if let Some(f) = o.fail {
                                if stop.swap(true, SeqCst) {
                                    break;
                                }
                                let (c, msg, steps) = shrink(&mut *tree, case, f, 60, |c| {
                                    trace.at(i);
                                    guarded(self.check, c).fail
                                });
                                *failure.lock().unwrap() = Some((serde_json::to_value(&c).unwrap(), msg, steps));
                                break;
                            }
                        }
                        distinct.lock().unwrap().extend(seen);
                        let mut g = classes.lock().unwrap();
                        for (k, v) in local {
                            *g.entry(k).or_default() += v;
                        }
                    })
                    .unwrap();
            }
        });
        Report {
            suite: self.name,
            evaluations: evals.into_inner(),
            nontrivial: nontriv.into_inner(),
            distinct_nontrivial: distinct.into_inner().unwrap().len() as u64,
            samples: samples.into_inner().unwrap(),
            classes: classes.into_inner().unwrap(),
            failure: failure.into_inner().unwrap(),
        }
    }
}

fn source(cfg: &Cfg, suite: &str, t: usize) -> TestRunner {
    let key = Sha256::digest(format!("{}|{}|{}|{}", cfg.property, suite, cfg.seed, t));
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, key.as_slice());
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng)
}

fn shrink<C: Clone + std::fmt::Debug>(tree: &mut dyn ValueTree<Value = C>, case: C, msg: String, secs: u64, mut check: impl FnMut(&C) -> Option<String>) -> (C, String, u32) {
    let (mut best, mut bmsg, mut steps) = (case, msg, 0u32);
    let end = Instant::now() + Duration::from_secs(secs);
    let mut more = tree.simplify();
    while more && steps < 20_000 && Instant::now() < end {
        steps += 1;
        let c = tree.current();
        more = match check(&c) {
            Some(f) => {
                best = c;
                bmsg = f;
                tree.simplify()
            }
            None => tree.complicate(),
        };
    }
    (best, bmsg, steps)
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub suites: Vec<Box<dyn SuiteDyn>>,
    pub assumptions: Vec<&'static str>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

/// `prog check ID`, `prog replay FILE`. Exit code as the interface demands.
pub fn main(props: Vec<Property>) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    match a.get(1).map(String::as_str) {
        Some("literals") => {
            let (s, i) = crate::gen::scan();
            println!("{}", serde_json::to_string_pretty(&(s, i.iter().map(u128::to_string).collect::<Vec<_>>())).unwrap());
            0
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => {
            let Some(f) = a.get(2) else { return 2 };
            let v: Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
            for p in &props {
                if v["property"] == p.id {
                    for s in &p.suites {
                        if v["suite"] == s.name() {
                            watchdog();
                            let o = std::thread::scope(|sc| {
                                let run = || {
                                    let t = Trace::new(String::from("replay"));
                                    t.at(0);
                                    s.replay(&v["case"]).unwrap()
                                };
                                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, run).unwrap().join().unwrap()
                            });
                            return match o.fail {
                                Some(m) => {
                                    println!("VIOLATION property={} replay={f}\n{m}", p.id);
                                    1
                                }
                                None => {
                                    println!("property {} holds on {f}", p.id);
                                    0
                                }
                            };
                        }
                    }
                }
            }
            eprintln!("no such suite");
            2
        }
        Some("check") => {
            let Some(id) = a.get(2) else { return 2 };
            let Some(p) = props.into_iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            if std::env::var_os("VERIF_CHILD").is_some() {
                watchdog();
                check(&p)
            } else {
                supervised(&p, &a)
            }
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list");
            2
        }
    }
}

fn config(p: &Property, t0: Instant) -> Cfg {
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    Cfg {
        property: p.id,
        tier,
        seed: env_u64("VERIF_SEED", 1),
        threads: env_u64("VERIF_THREADS", 8) as usize,
        out: std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif".into()),
        deadline: t0 + Duration::from_secs(if tier == Tier::Quick { 400 } else { 4 * 3600 }),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

/// The check in a process of its own. When that process dies (stack overflow, memory, a case that does not end), the
/// case responsible is generated again, confirmed in another process, and shrunk there.
fn supervised(p: &Property, args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("verif-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let status = std::process::Command::new(&exe).args(&args[1..]).env("VERIF_CHILD", &dir).status();
    let code = match status {
        Ok(s) if s.code().is_some_and(|c| (0..=3).contains(&c)) => s.code().unwrap(),
        s => died(p, &exe, &dir, &format!("{s:?}")),
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn died(p: &Property, exe: &std::path::Path, dir: &std::path::Path, how: &str) -> i32 {
    eprintln!("the process died: {how}");
    let t0 = Instant::now();
    let cfg = config(p, t0);
    let part = std::env::var("VERIF_PART").unwrap_or_default();
    let dash = if part.is_empty() { String::new() } else { format!("-{part}") };
    let hang = std::fs::read_to_string(dir.join("hang")).ok();
    let mut evals = 0;
    for s in &p.suites {
        for t in 0..cfg.threads {
            let label = format!("{}.{t}", s.name());
            let Some(i) = std::fs::read(dir.join(&label)).ok().and_then(|b| Some(u64::from_le_bytes(b.try_into().ok()?))) else { continue };
            if i == u64::MAX || hang.as_ref().is_some_and(|h| *h != label) {
                continue;
            }
            evals += i + 1;
            let tmp = dir.join("case.json");
            let mut ended = String::new();
            let mut fails = |c: &Value| {
                std::fs::write(&tmp, serde_json::to_vec(&json!({"property":p.id,"build":part,"suite":s.name(),"case":c})).unwrap()).unwrap();
                let limit = if hang.is_some() { "5" } else { "30" };
                let o = std::process::Command::new(exe).arg("replay").arg(&tmp).env("VERIF_HANG", limit).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
                match o {
                    Ok(x) if x.code().is_none_or(|c| c == 1) => {
                        ended = x.to_string();
                        true
                    }
                    _ => false,
                }
            };
            let (case, steps) = s.again(&cfg, t, i, &mut fails);
            if case.is_null() {
                continue;
            }
            let rdir = format!("{}/evidence/replay", cfg.out);
            std::fs::create_dir_all(&rdir).unwrap();
            let f = format!("{rdir}/{}{dash}-{}-{}.json", p.id, s.name(), cfg.seed);
            let msg = format!("the call does not return: {} ({ended})", if hang.is_some() { "it does not end" } else { "the process dies" });
            std::fs::write(&f, serde_json::to_vec_pretty(&json!({"property":p.id,"build":part,"suite":s.name(),"seed":cfg.seed,"shrink_steps":steps,"failure":msg,"case":case})).unwrap()).unwrap();
            let ev = json!({"property":p.id,"tier":if cfg.tier == Tier::Quick {"quick"} else {"thorough"},"seed":cfg.seed,"level":"exploration",
                "coverage":{"evaluations":evals,"distinct_nontrivial":1,"rule":p.rule,"samples":[{"suite":s.name(),"case":case}],"suites":[]},
                "assumptions":p.assumptions,"wall_s":t0.elapsed().as_secs_f64(),"violations":1});
            let file = if part.is_empty() { format!("{}/evidence/{}.json", cfg.out, p.id) } else { format!("{}/evidence/parts/{}{dash}.json", cfg.out, p.id) };
            std::fs::create_dir_all(std::path::Path::new(&file).parent().unwrap()).unwrap();
            std::fs::write(file, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
            println!("VIOLATION property={} replay={f}", p.id);
            println!("{}{dash} VIOLATED: {msg}", p.id);
            return 1;
        }
    }
    3
}

pub fn check(p: &Property) -> i32 {
    let t0 = Instant::now();
    let cfg = config(p, t0);
    let (tier, out) = (cfg.tier, cfg.out.clone());
    // one of several builds that together decide the property
    let part = std::env::var("VERIF_PART").unwrap_or_default();
    let dash = if part.is_empty() { String::new() } else { format!("-{part}") };
    let mut reps = vec![];
    let mut code = 0;
    let only = std::env::var("VERIF_SUITE").ok();
    let mut lines = vec![];
    // committed regression inputs first
    let reg = format!("{out}/regress/{}", p.id);
    let mut regress = 0u64;
    if let Ok(rd) = std::fs::read_dir(&reg) {
        let mut fs: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect();
        fs.sort();
        for f in fs {
            let v: Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            if v["build"].as_str().unwrap_or("") != part {
                continue;
            }
            let Some(s) = p.suites.iter().find(|s| v["suite"] == s.name()) else { continue };
            regress += 1;
            match s.replay(&v["case"]) {
                Ok(o) => {
                    if let Some(m) = o.fail {
                        lines.push(format!("VIOLATION property={} replay={}", p.id, f.display()));
                        eprintln!("{m}");
                        code = 1;
                    }
                }
                Err(e) => {
                    eprintln!("regression file {}: {e}", f.display());
                    return 2;
                }
            }
        }
    }
    for s in &p.suites {
        if only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        if code == 1 {
            break;
        }
        let r = s.run(&cfg);
        if let Some((case, msg, steps)) = &r.failure {
            let dir = format!("{out}/evidence/replay");
            std::fs::create_dir_all(&dir).unwrap();
            let f = format!("{dir}/{}{dash}-{}-{}.json", p.id, r.suite, cfg.seed);
            std::fs::write(&f, serde_json::to_vec_pretty(&json!({"property":p.id,"build":part,"suite":r.suite,"seed":cfg.seed,"shrink_steps":steps,"failure":msg,"case":case})).unwrap()).unwrap();
            lines.push(format!("VIOLATION property={} replay={f}", p.id));
            eprintln!("[{}] {msg}", r.suite);
            code = 1;
        }
        reps.push(r);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reps.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reps.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
            "rule": p.rule,
            "samples": reps.iter().flat_map(|r| r.samples.iter().map(|s| json!({"suite":r.suite,"case":s}))).collect::<Vec<_>>(),
            "regression_inputs_replayed": regress,
            "suites": reps.iter().map(|r| json!({"suite":r.suite,"evaluations":r.evaluations,"nontrivial":r.nontrivial,"distinct_nontrivial":r.distinct_nontrivial,"classes":r.classes})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": code,
    });
    let file = if part.is_empty() { format!("{out}/evidence/{}.json", p.id) } else { format!("{out}/evidence/parts/{}{dash}.json", p.id) };
    std::fs::create_dir_all(std::path::Path::new(&file).parent().unwrap()).unwrap();
    std::fs::write(file, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for r in &reps {
        println!("{}{dash} {}: {} cases, {} distinct non-trivial", p.id, r.suite, r.evaluations, r.distinct_nontrivial);
    }
    for l in lines {
        println!("{l}");
    }
    println!("{}{dash} {} in {wall:.1}s", p.id, if code == 0 { "holds on everything explored" } else { "VIOLATED" });
    code
}
