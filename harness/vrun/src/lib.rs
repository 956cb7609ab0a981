//! The driver: generates inputs for every enum, runs them, shrinks failures, writes the replay
//! file and the evidence.
pub mod strat;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Cfg {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<PathBuf>,
    pub threads: usize,
    pub start: Instant,
    /// multiplies the number of cases
    pub scale: f64,
}
impl Cfg {
    pub fn from_env() -> Cfg {
        let mut args = std::env::args().skip(1);
        let mut replay = None;
        while let Some(a) = args.next() {
            match a.as_str() {
                "--replay" => replay = Some(PathBuf::from(args.next().expect("--replay FILE"))),
                x => panic!("unknown argument {}", x),
            }
        }
        let var = |x: &str| std::env::var(x).ok();
        Cfg {
            root: PathBuf::from(var("VERIF_ROOT").unwrap_or("/verif".to_string())),
            seed: var("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1),
            thorough: var("VERIF_TIER").as_deref() == Some("thorough"),
            replay,
            threads: var("VERIF_THREADS").and_then(|x| x.parse().ok()).unwrap_or(8),
            start: Instant::now(),
            scale: var("VERIF_SCALE").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        }
    }
    pub fn tier(&self) -> &'static str {
        if self.thorough { "thorough" } else { "quick" }
    }
    pub fn runner(&self, salt: &str) -> TestRunner {
        TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            vgen::rng_from(self.seed, salt),
        )
    }
    pub fn deadline(&self, quick: u64, thorough: u64) -> Instant {
        self.start + Duration::from_secs(if self.thorough { thorough } else { quick })
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    /// the enum, by name and by source
    pub target: String,
    pub source: String,
    pub seed: u64,
    pub message: String,
    /// a small program or a command reproducing it outside this machinery, where there is one
    #[serde(default)]
    pub note: String,
    pub case: Value,
}

pub struct Evidence {
    pub property: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub samples: Vec<Value>,
    pub extra: serde_json::Map<String, Value>,
    pub assumptions: Vec<String>,
    pub violations: u64,
}
impl Evidence {
    pub fn new(property: &str, rule: &str) -> Evidence {
        Evidence {
            property: property.to_string(),
            rule: rule.to_string(),
            evaluations: 0,
            distinct_nontrivial: 0,
            samples: vec![],
            extra: Default::default(),
            assumptions: vec![],
            violations: 0,
        }
    }
    pub fn write(&self, cfg: &Cfg) {
        let mut cov = self.extra.clone();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct_nontrivial));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        let v = json!({
            "property": self.property,
            "tier": cfg.tier(),
            "seed": cfg.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (cfg.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations,
        });
        let dir = cfg.root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join(format!("{}.json", self.property));
        let tmp = dir.join(format!(".{}.tmp", self.property));
        std::fs::write(&tmp, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        std::fs::rename(tmp, p).unwrap();
    }
}

/// Writes a replay file and prints the violation line.
pub fn violation(cfg: &Cfg, r: &Replay) {
    let dir = cfg.root.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let body = serde_json::to_string_pretty(r).unwrap() + "\n";
    let h = fnv(body.as_bytes());
    let p = dir.join(format!("{}-{:012x}.json", r.property, h >> 16));
    std::fs::write(&p, body).unwrap();
    println!("violated: {} on {}\n{}", r.property, r.target, r.source.trim_end());
    println!("{}", r.message);
    println!("VIOLATION property={} replay={}", r.property, p.display());
}
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// Inputs kept from earlier failures: /verif/regress/<ID>/*.json
pub fn regressions(cfg: &Cfg, property: &str) -> Vec<Replay> {
    let mut v = Vec::new();
    if let Ok(d) = std::fs::read_dir(cfg.root.join("regress").join(property)) {
        let mut f: Vec<_> = d.flatten().map(|x| x.path()).collect();
        f.sort();
        for p in f {
            if p.extension().map_or(false, |x| x == "json") {
                v.push(serde_json::from_slice(&std::fs::read(&p).unwrap()).expect("regression file"));
            }
        }
    }
    v
}

/// What one case exercised.
#[derive(Default)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub struct Entry<C> {
    pub name: &'static str,
    pub source: &'static str,
    pub run: fn(&C) -> (Result<(), String>, Seen),
}

pub struct Check<C: 'static> {
    pub property: &'static str,
    pub rule: &'static str,
    pub strategy: fn(&Cfg) -> BoxedStrategy<C>,
    /// cases per enum and entry
    pub quick: u32,
    pub thorough: u32,
    pub entries: Vec<Entry<C>>,
}

fn eval<C>(e: &Entry<C>, c: &C) -> (Result<(), String>, Seen) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (e.run)(c))) {
        Ok(x) => x,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            (Err(format!("panicked: {}", m)), Seen::default())
        }
    }
}

/// What each thread is at, so that a case that never ends can be named.
struct Watch<C> {
    at: Vec<Mutex<Option<(Instant, usize, C)>>>,
}
/// A case takes milliseconds.
const HANG: Duration = Duration::from_secs(45);

/// Shrinks a failing tree for at most this long.
pub fn shrink<T: ValueTree>(
    tree: &mut T, limit: usize, time: Duration, mut fails: impl FnMut(&T::Value) -> Option<String>,
) -> (T::Value, String) {
    let mut best = (tree.current(), String::new());
    best.1 = fails(&best.0).unwrap_or_default();
    let t = Instant::now();
    let mut n = 0;
    let mut go = tree.simplify();
    while go && n < limit && t.elapsed() < time {
        n += 1;
        let c = tree.current();
        match fails(&c) {
            Some(m) => {
                best = (c, m);
                go = tree.simplify();
            }
            None => go = tree.complicate(),
        }
    }
    best
}

/// Runs a check to its end and exits.
pub fn main<C>(check: Check<C>) -> !
where C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    let cfg = Cfg::from_env();
    // panics are caught and reported
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(p) = cfg.replay.clone() {
        let replay = move || replay(&cfg, check, &p);
        std::thread::Builder::new().stack_size(STACK).spawn(replay).expect("thread").join().expect("replay");
        unreachable!()
    }
    std::process::exit(run(&cfg, check));
}

/// Sets of huge enums are large values, and many of them are alive in a test.
const STACK: usize = 512 << 20;

fn replay<C>(cfg: &Cfg, check: Check<C>, p: &std::path::Path) -> !
where C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    let r: Replay = serde_json::from_slice(&std::fs::read(p).expect("replay file")).expect("replay file");
    let case: C = serde_json::from_value(r.case.clone()).expect("case");
    let mut found = false;
    for e in &check.entries {
        if e.name == r.target && e.source == r.source {
            found = true;
            println!("{}\n{:?}", e.source, case);
            if let (Err(m), _) = eval(e, &case) {
                violation(cfg, &Replay { message: m, ..r });
                std::process::exit(1);
            }
        }
    }
    if !found {
        eprintln!("no enum {} of this definition in this build", r.target);
        std::process::exit(2);
    }
    println!("held: {} on {}", r.property, r.target);
    std::process::exit(0);
}

struct Stats {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    per_entry: Vec<(u64, u64)>,
    failures: Vec<Replay>,
}

pub fn run<C>(cfg: &Cfg, check: Check<C>) -> i32
where C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    let cases = ((if cfg.thorough { check.thorough } else { check.quick }) as f64 * cfg.scale) as u32;
    let deadline = cfg.deadline(400, 3000);
    let stop = AtomicBool::new(false);
    let late = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let stats = Mutex::new(Stats {
        evaluations: 0,
        hashes: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        per_entry: vec![(0, 0); check.entries.len()],
        failures: vec![],
    });
    let regress = regressions(cfg, check.property);
    let n_regress = AtomicUsize::new(0);
    let watch: Watch<C> = Watch { at: (0..cfg.threads).map(|_| Mutex::new(None)).collect() };
    let trace = std::env::var("VERIF_TRACE").ok().map(PathBuf::from);
    let running = AtomicUsize::new(cfg.threads);
    std::thread::scope(|sc| {
        // the watchdog
        sc.spawn(|| {
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for a in &watch.at {
                    let a = a.lock().unwrap();
                    if let Some((t, i, c)) = &*a {
                        if t.elapsed() > HANG {
                            let e = &check.entries[*i];
                            let mut ev = Evidence::new(check.property, check.rule);
                            ev.violations = 1;
                            ev.write(cfg);
                            violation(
                                cfg,
                                &Replay {
                                    property: check.property.to_string(),
                                    target: e.name.to_string(),
                                    source: e.source.to_string(),
                                    seed: cfg.seed,
                                    message: format!("did not end within {:?}", HANG),
                                    note: format!("{:?}", c),
                                    case: serde_json::to_value(c).unwrap(),
                                },
                            );
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for thread in 0..cfg.threads {
            let (watch, running, trace, check, next, stop, late, stats, regress, n_regress) =
                (&watch, &running, &trace, &check, &next, &stop, &late, &stats, &regress, &n_regress);
            let body = move || {
                struct Done<'a>(&'a AtomicUsize);
                impl Drop for Done<'_> {
                    fn drop(&mut self) {
                        self.0.fetch_sub(1, Ordering::SeqCst);
                    }
                }
                let _done = Done(running);
                // runs a case where it can be found if it takes the process down or never ends
                let eval = |i: usize, c: &C| {
                    let e = &check.entries[i];
                    *watch.at[thread].lock().unwrap() = Some((Instant::now(), i, c.clone()));
                    if let Some(d) = trace {
                        let r = Replay {
                            property: check.property.to_string(),
                            target: e.name.to_string(),
                            source: e.source.to_string(),
                            seed: cfg.seed,
                            message: "took the process down".to_string(),
                            note: format!("{:?}", c),
                            case: serde_json::to_value(c).unwrap(),
                        };
                        std::fs::write(d.join(format!("{}.json", thread)), serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                    }
                    let r = eval(e, c);
                    *watch.at[thread].lock().unwrap() = None;
                    r
                };
                let strategy = (check.strategy)(cfg);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= check.entries.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let e = &check.entries[i];
                    let fail = |message: String, case: &C| {
                        stop.store(true, Ordering::SeqCst);
                        stats.lock().unwrap().failures.push(Replay {
                            property: check.property.to_string(),
                            target: e.name.to_string(),
                            source: e.source.to_string(),
                            seed: cfg.seed,
                            message,
                            note: format!("{:?}", case),
                            case: serde_json::to_value(case).unwrap(),
                        });
                    };
                    for r in regress.iter() {
                        if r.target == e.name && r.source == e.source {
                            if let Ok(c) = serde_json::from_value::<C>(r.case.clone()) {
                                n_regress.fetch_add(1, Ordering::SeqCst);
                                if let (Err(m), _) = eval(i, &c) {
                                    fail(m, &c);
                                }
                            }
                        }
                    }
                    let mut runner = cfg.runner(&format!("{} {} {}", check.property, e.name, i));
                    let mut evals = 0u64;
                    let mut hashes = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut sample = None;
                    for k in 0..cases {
                        if k % 16 == 0 && (stop.load(Ordering::SeqCst) || Instant::now() > deadline) {
                            if Instant::now() > deadline {
                                late.store(true, Ordering::SeqCst);
                            }
                            break;
                        }
                        let mut tree = match strategy.new_tree(&mut runner) {
                            Ok(x) => x,
                            Err(e) => panic!("generator: {}", e),
                        };
                        let c = tree.current();
                        let (r, seen) = eval(i, &c);
                        evals += 1;
                        for l in seen.labels {
                            *labels.entry(l).or_default() += 1;
                        }
                        if let Err(_) = r {
                            let (c, m) = shrink(&mut tree, 4000, Duration::from_secs(20), |c| eval(i, c).0.err());
                            fail(m, &c);
                            break;
                        }
                        if seen.nontrivial {
                            let h = fnv(format!("{} {:?}", e.name, c).as_bytes());
                            if hashes.insert(h) && sample.is_none() && k >= 5 {
                                sample = Some(json!({"enum": e.name, "case": format!("{:?}", c)}));
                            }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.evaluations += evals;
                    s.per_entry[i] = (evals, hashes.len() as u64);
                    s.hashes.extend(hashes);
                    for (l, n) in labels {
                        *s.labels.entry(l).or_default() += n;
                    }
                    if let Some(x) = sample {
                        if s.samples.len() < 6 {
                            s.samples.push(x);
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, body).expect("thread");
        }
    });
    let s = stats.into_inner().unwrap();
    let mut ev = Evidence::new(check.property, check.rule);
    ev.evaluations = s.evaluations;
    ev.distinct_nontrivial = s.hashes.len() as u64;
    ev.samples = s.samples;
    ev.violations = s.failures.len() as u64;
    ev.extra.insert("labels".into(), json!(s.labels));
    ev.extra.insert("enums".into(), json!(check.entries.iter().map(|x| x.name).collect::<HashSet<_>>().len()));
    ev.extra.insert("cases_per_enum".into(), json!(cases));
    ev.extra.insert("regression_inputs_replayed".into(), json!(n_regress.load(Ordering::SeqCst)));
    ev.extra.insert(
        "enums_without_nontrivial_case".into(),
        json!(check.entries.iter().zip(&s.per_entry).filter(|x| x.1 .1 == 0).map(|x| x.0.name).collect::<Vec<_>>()),
    );
    ev.extra.insert("stopped_by_time".into(), json!(late.load(Ordering::SeqCst)));
    if let Ok(x) = std::env::var("VERIF_EXCLUDE") {
        if !x.is_empty() {
            ev.extra.insert("enums_that_do_not_compile".into(), json!(x));
        }
    }
    ev.write(cfg);
    for r in &s.failures {
        violation(cfg, r);
    }
    println!(
        "{}: {} cases on {} enums, {} distinct and non-trivial, {} violations, {:.1} s",
        check.property, s.evaluations, check.entries.len(), s.hashes.len(), s.failures.len(), cfg.start.elapsed().as_secs_f64()
    );
    if s.failures.is_empty() { 0 } else { 1 }
}

pub fn boxed<C: Debug + 'static>(s: impl Strategy<Value = C> + 'static) -> BoxedStrategy<C> {
    s.boxed()
}
