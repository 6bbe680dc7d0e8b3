//! Property-test engine: seeded, sharded proptest runs with shrinking, replay files and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property does not hold for this case
    Violation(String),
    /// the case could not be judged (environment): an error of the check, never a violation
    Inconclusive(String),
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Violation(format!($($t)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! inconclusive {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Inconclusive(format!($($t)*))) };
}

/// What a case turned out to exercise.
#[derive(Default)]
pub struct Obs {
    classes: Vec<String>,
    nontrivial: bool,
}
impl Obs {
    pub fn class<S: Into<String>>(&mut self, s: S) {
        self.classes.push(s.into());
    }
    pub fn class_if<S: Into<String>>(&mut self, c: bool, s: S) {
        if c {
            self.classes.push(s.into());
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn absorb(&mut self, other: Obs) {
        self.classes.extend(other.classes);
        self.nontrivial |= other.nontrivial;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub deadline: Instant,
    pub id: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub inconclusive: Vec<String>,
    /// cases not run because the time share of the suite was used up
    pub skipped: u64,
    pub violation: Option<(String, Value)>,
}

pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: Box<dyn Fn(&Ctx) -> Report + Send + Sync>,
    pub replay: Box<dyn Fn(&Value) -> Res + Send + Sync>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("VERIF_DEBUG").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs `f`, turning a panic into `Err(message at location)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = fnv(name.as_bytes(), 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
    h ^= shard.wrapping_mul(0xD1B54A32D192ED03);
    for c in out.chunks_mut(8) {
        h = h.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn run_one<C>(check: &(dyn Fn(&C, &mut Obs) -> Res + Send + Sync), c: &C, obs: &mut Obs) -> Res {
    match no_panic(|| check(c, obs)) {
        Ok(r) => r,
        Err(p) => Err(Fail::Violation(format!("panic: {}", p))),
    }
}

/// processor seconds a thread of this process has used
fn cpu_secs(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

pub struct Opts {
    pub quick: u32,
    pub thorough: u32,
    pub shards: u32,
    pub shrink: u32,
    /// seconds after which a single case counts as hanging (a violation)
    pub hang: u64,
}
pub fn opts(quick: u32, thorough: u32) -> Opts {
    Opts {
        quick,
        thorough,
        shards: 8,
        shrink: 20_000,
        hang: 100,
    }
}
impl Opts {
    pub fn shards(mut self, n: u32) -> Self {
        self.shards = n;
        self
    }
    pub fn hang(mut self, n: u64) -> Self {
        self.hang = n;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
}

fn short(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        Value::String(format!("{}… ({} bytes of JSON)", &s[..cut], s.len()))
    }
}

pub fn suite<C>(
    name: &'static str,
    rule: &'static str,
    o: Opts,
    strat: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    check: impl Fn(&C, &mut Obs) -> Res + Send + Sync + 'static,
) -> Suite
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
{
    let check: Arc<dyn Fn(&C, &mut Obs) -> Res + Send + Sync> = Arc::new(check);
    let check2 = check.clone();
    let run = move |ctx: &Ctx| -> Report {
        let total = match ctx.tier {
            Tier::Quick => o.quick,
            Tier::Thorough => o.thorough,
        };
        let shards = o.shards.min(total.max(1));
        let strat = &strat;
        let check = &check;
        let mut reports: Vec<Report> = Vec::new();
        // what each shard is working on, watched for cases that never end
        let running: Vec<Mutex<Option<(Instant, Option<f64>, String, C)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
        let running = &running;
        let done = std::sync::atomic::AtomicBool::new(false);
        let done = &done;
        // one shard has found a violation: the others stop
        let found = std::sync::atomic::AtomicBool::new(false);
        let found = &found;
        // after a crash of the process run.sh runs again with every case written down beforehand
        let trace = std::env::var_os("VERIF_TRACE").map(std::path::PathBuf::from);
        let trace = &trace;
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            let (hang, id) = (o.hang, ctx.id);
            sc.spawn(move || {
                while !done.load(std::sync::atomic::Ordering::Relaxed) {
                    std::thread::park_timeout(std::time::Duration::from_millis(200));
                    for r in running {
                        let late = match &*r.lock().unwrap() {
                            // wall time alone proves nothing on a loaded machine: the case must
                            // have burnt processor time as well
                            Some((t, cpu, tid, c)) if t.elapsed().as_secs() >= hang => {
                                match (cpu, cpu_secs(tid)) {
                                    (Some(a), Some(b)) if b - a >= hang as f64 * 0.5 => Some(c.clone()),
                                    _ => None,
                                }
                            }
                            _ => None,
                        };
                        if let Some(c) = late {
                            let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                            report_violation(id, name, &format!("a single case kept the processor busy for {} s: endless loop", hang), &v, 0);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for shard in 0..shards {
                let cases = total / shards + if shard < total % shards { 1 } else { 0 };
                let o_shrink = o.shrink;
                let seed = ctx.seed;
                let deadline = ctx.deadline;
                let h = std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let rep = Mutex::new(Report::default());
                        let cfg = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: o_shrink,
                            max_shrink_time: 90_000,
                            max_global_rejects: 1_000_000,
                            max_local_rejects: 1_000_000,
                            result_cache: proptest::test_runner::noop_result_cache,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(
                            RngAlgorithm::ChaCha,
                            &seed_bytes(seed, name, shard as u64),
                        );
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let failing = std::cell::Cell::new(false);
                        let tid = std::fs::read_link("/proc/thread-self")
                            .ok()
                            .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                            .unwrap_or_default();
                        let res = runner.run(&strat(), |case: C| {
                            if Instant::now() > deadline || (!failing.get() && found.load(std::sync::atomic::Ordering::Relaxed)) {
                                rep.lock().unwrap().skipped += 1;
                                return Ok(());
                            }
                            let mut obs = Obs::default();
                            *running[shard as usize].lock().unwrap() =
                                Some((Instant::now(), cpu_secs(&tid), tid.clone(), case.clone()));
                            if let Some(dir) = trace {
                                let body = json!({"property": id, "suite": name, "case": &case, "seed": seed, "message": "the process is ended by a signal"});
                                let _ = std::fs::write(dir.join(format!("{}-{}.json", name, shard)), body.to_string());
                            }
                            let r = run_one(&**check, &case, &mut obs);
                            *running[shard as usize].lock().unwrap() = None;
                            if !failing.get() {
                                let mut rep = rep.lock().unwrap();
                                rep.evaluations += 1;
                                for c in obs.classes.drain(..) {
                                    *rep.classes.entry(c).or_insert(0) += 1;
                                }
                                if obs.nontrivial {
                                    let js = serde_json::to_vec(&case).unwrap_or_default();
                                    rep.nontrivial.insert(fnv(&js, 0xcbf29ce484222325));
                                    // keep the two smallest of the first cases as samples
                                    if shard == 0 && rep.evaluations < 40 {
                                        let v = serde_json::to_value(&case).unwrap_or(Value::Null);
                                        if rep.samples.len() < 3 {
                                            rep.samples.push(short(&v));
                                        }
                                    }
                                }
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(Fail::Inconclusive(m)) => {
                                    rep.lock().unwrap().inconclusive.push(m);
                                    Ok(())
                                }
                                Err(Fail::Violation(m)) => {
                                    failing.set(true);
                                    found.store(true, std::sync::atomic::Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        let mut rep = rep.into_inner().unwrap();
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                // message of the minimal case
                                let mut obs = Obs::default();
                                let msg = match run_one(&**check, &case, &mut obs) {
                                    Err(Fail::Violation(m)) => m,
                                    _ => reason.message().to_string(),
                                };
                                rep.violation =
                                    Some((msg, serde_json::to_value(&case).unwrap_or(Value::Null)));
                            }
                            Err(TestError::Abort(r)) => {
                                rep.inconclusive.push(format!("generator aborted: {}", r))
                            }
                        }
                        rep
                    })
                    .expect("spawn shard");
                hs.push(h);
            }
            for h in hs {
                reports.push(h.join().expect("shard thread"));
            }
            done.store(true, std::sync::atomic::Ordering::Relaxed);
        });
        let mut total = Report::default();
        for r in reports {
            total.evaluations += r.evaluations;
            total.nontrivial.extend(r.nontrivial);
            for (k, v) in r.classes {
                *total.classes.entry(k).or_insert(0) += v;
            }
            total.samples.extend(r.samples);
            total.skipped += r.skipped;
            total.inconclusive.extend(r.inconclusive);
            if total.violation.is_none() {
                total.violation = r.violation;
            }
        }
        total
    };
    let replay = move |v: &Value| -> Res {
        let case: C = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => return Err(Fail::Inconclusive(format!("replay case does not parse: {}", e))),
        };
        let mut obs = Obs::default();
        run_one(&*check2, &case, &mut obs)
    };
    Suite {
        name,
        rule,
        run: Box::new(run),
        replay: Box::new(replay),
    }
}

/// Boxes a strategy (short alias).
pub fn bx<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + Send + Sync + 'static,
{
    s.boxed()
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

fn report_violation(id: &str, suite: &str, msg: &str, case: &Value, seed: u64) {
    let rdir = verif_dir().join("replays").join(id);
    let _ = std::fs::create_dir_all(&rdir);
    let body = json!({"property": id, "suite": suite, "message": msg, "case": case, "seed": seed});
    let h = fnv(body["case"].to_string().as_bytes(), 0xcbf29ce484222325);
    let path = rdir.join(format!("{}-{:016x}.json", suite, h));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n");
    println!("suite={} message={}\n  case={}", suite, clip(msg), short(case));
    println!("VIOLATION property={} replay={}", id, path.display());
}
fn clip(m: &str) -> String {
    let m = m.replace('\n', "\\n");
    if m.len() <= 2000 {
        return m;
    }
    let mut cut = 2000;
    while !m.is_char_boundary(cut) {
        cut -= 1;
    }
    format!("{}…", &m[..cut])
}

/// Runs a property; returns the process exit code.
pub fn run_prop(p: &Prop, seed: u64, tier: Tier, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let budget = match tier {
        Tier::Quick => 480,
        Tier::Thorough => 3 * 3600,
    };
    let end = start + std::time::Duration::from_secs(budget);
    let mut violations: Vec<(String, String, Value)> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut starved = false;
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<Value> = Vec::new();
    let mut suites = serde_json::Map::new();
    let mut rules: Vec<String> = Vec::new();

    // saved regression inputs first
    let cdir = verif_dir().join("corpus").join(p.id);
    let mut regressions = 0u64;
    if let Ok(rd) = std::fs::read_dir(&cdir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        files.sort();
        for f in files {
            if f.extension().map_or(true, |e| e != "json") {
                continue;
            }
            let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(v) => v,
                None => {
                    inconclusive.push(format!("cannot read {}", f.display()));
                    continue;
                }
            };
            let sname = v["suite"].as_str().unwrap_or("");
            match p.suites.iter().find(|s| s.name == sname) {
                Some(s) => {
                    regressions += 1;
                    evals += 1;
                    match (s.replay)(&v["case"]) {
                        Ok(()) => {}
                        Err(Fail::Violation(m)) => {
                            violations.push((sname.to_string(), m, v["case"].clone()))
                        }
                        Err(Fail::Inconclusive(m)) => inconclusive.push(m),
                    }
                }
                None => inconclusive.push(format!("no suite {} for {}", sname, f.display())),
            }
        }
    }

    for (i, s) in p.suites.iter().enumerate() {
        if !violations.is_empty() {
            break;
        }
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        let t = Instant::now();
        // a slow machine runs fewer cases: every suite gets an equal share of what is left
        let left = end.saturating_duration_since(t);
        let ctx = Ctx {
            seed,
            tier,
            deadline: t + left / (p.suites.len() - i) as u32,
            id: p.id,
        };
        let r = (s.run)(&ctx);
        if r.violation.is_none() && r.skipped > 0 && r.evaluations < 20 {
            starved = true;
            inconclusive.push(format!("{}: too slow, only {} cases run", s.name, r.evaluations));
        }
        rules.push(format!("{}: {}", s.name, s.rule));
        evals += r.evaluations;
        distinct += r.nontrivial.len() as u64;
        for v in r.samples.into_iter().take(2) {
            samples.push(json!({"suite": s.name, "case": v}));
        }
        suites.insert(
            s.name.to_string(),
            json!({
                "evaluations": r.evaluations,
                "skipped_for_time": r.skipped,
                "distinct_nontrivial": r.nontrivial.len(),
                "classes": r.classes,
                "wall_s": (t.elapsed().as_secs_f64()*100.0).round()/100.0,
            }),
        );
        inconclusive.extend(r.inconclusive.into_iter().map(|m| format!("{}: {}", s.name, m)));
        if let Some((m, c)) = r.violation {
            violations.push((s.name.to_string(), m, c));
        }
    }

    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "suites": suites,
            "regression_inputs": regressions,
            "inconclusive_cases": inconclusive.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if only.is_none() {
        let edir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        if let Err(e) = std::fs::write(
            edir.join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            println!("ERROR cannot write evidence: {}", e);
            return 2;
        }
    }
    println!(
        "{} {:?} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        tier,
        seed,
        evals,
        distinct,
        start.elapsed().as_secs_f64()
    );
    if std::env::var_os("VERIF_DEBUG").is_some() || only.is_some() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["suites"]).unwrap());
    }
    if !violations.is_empty() {
        for (s, m, c) in &violations {
            report_violation(p.id, s, m, c, seed);
        }
        return 1;
    }
    for m in inconclusive.iter().take(5) {
        println!("INCONCLUSIVE {}", m);
    }
    // single cases spoilt by the environment do not spoil the check
    if starved || evals == 0 || inconclusive.len() as u64 > (evals / 200).max(2) {
        return 2;
    }
    0
}

pub fn replay_file(p: &Prop, path: &str) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            println!("ERROR cannot read {}", path);
            return 2;
        }
    };
    let name = v["suite"].as_str().unwrap_or("");
    match p.suites.iter().find(|s| s.name == name) {
        None => {
            println!("ERROR no suite {}", name);
            2
        }
        Some(s) => match {
            let (id, path) = (p.id, path.to_string());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(120));
                println!("VIOLATION property={} replay={}", id, path);
                std::process::exit(1);
            });
            (s.replay)(&v["case"])
        } {
            Ok(()) => {
                println!("{} replay passes", p.id);
                0
            }
            Err(Fail::Violation(m)) => {
                println!("suite={} message={}", name, m);
                println!("VIOLATION property={} replay={}", p.id, path);
                1
            }
            Err(Fail::Inconclusive(m)) => {
                println!("INCONCLUSIVE {}", m);
                2
            }
        },
    }
}

/// A check that hangs answers "no answer" (exit 2) instead of running for ever.
pub fn watchdog(tier: Tier) {
    let secs = match tier {
        Tier::Quick => 840,
        Tier::Thorough => 4 * 3600,
    };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        println!("ERROR the check did not finish within {} s", secs);
        std::process::exit(2);
    });
}
