//! C22 and C23: generates cases, has them interpreted natively and under Miri, compares.
//! Environment: VERIF_PROPERTY, VERIF_NATIVE (the native `vmiri`), VERIF_MIRI (directory of the builds for Miri).
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, ValueTree};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcase::AnyCase;
use vrun::strat as s;
use vrun::{Cfg, Evidence, Replay};

/// Where cases are interpreted.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Place {
    Native,
    /// target, Miri's flags
    Miri(&'static str, &'static str),
}
const HOST: &str = "x86_64-unknown-linux-gnu";
/// Stacked Borrows, Tree Borrows
const STACKED: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks";
const TREE: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows";
const PLAIN: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows";
const TARGETS: [&str; 3] = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"];
impl Place {
    fn name(&self) -> String {
        match self {
            Place::Native => "native".to_string(),
            Place::Miri(t, f) => format!("Miri for {}{}", t, if f.contains("tree") { ", Tree Borrows" } else { "" }),
        }
    }
    fn parse(x: &str) -> Place {
        for p in places() {
            if p.name() == x {
                return p;
            }
        }
        panic!("no place {}", x)
    }
}
fn places() -> Vec<Place> {
    let mut v = vec![Place::Native, Place::Miri(HOST, STACKED), Place::Miri(HOST, TREE)];
    v.extend(TARGETS.iter().map(|t| Place::Miri(t, PLAIN)));
    v
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    NotRun(String),
    Ok { digest: String, nontrivial: bool },
    Fail(String),
    /// undefined behaviour, an abort or a signal
    Crash(String),
}
#[derive(Clone, Debug)]
struct Out {
    res: Res,
    /// arithmetic overflow and the like, even where panics are allowed
    suspicious: Vec<String>,
}

struct Entry {
    name: String,
    repr: bool,
    n: usize,
    words: usize,
    source: String,
}

struct World {
    native: PathBuf,
    miri: PathBuf,
    harness: PathBuf,
    work: PathBuf,
    n: AtomicUsize,
    processes: AtomicUsize,
    entries: Vec<Entry>,
}
impl World {
    fn new(cfg: &Cfg, property: &str) -> World {
        let var = |x: &str| PathBuf::from(std::env::var(x).unwrap_or_else(|_| panic!("{} is not set", x)));
        let native = var("VERIF_NATIVE");
        let o = Command::new(&native).arg("--list").output().expect("vmiri");
        let entries = String::from_utf8_lossy(&o.stdout)
            .lines()
            .map(|l| {
                let f: Vec<&str> = l.split('\t').collect();
                Entry { name: f[0].into(), repr: f[1] == "true", n: f[2].parse().unwrap(), words: f[3].parse().unwrap(), source: f[4].replace('\x01', "\n") }
            })
            .collect();
        let miri = var("VERIF_MIRI");
        let work = miri.parent().unwrap().join(format!("vm-work-{}-{}", property, std::process::id()));
        std::fs::create_dir_all(&work).unwrap();
        World { native, miri, harness: cfg.root.join("harness"), work, n: AtomicUsize::new(0), processes: AtomicUsize::new(0), entries }
    }

    fn command(&self, place: Place, limit: u64) -> Command {
        let mut c = Command::new("timeout");
        c.arg("-k").arg("5").arg(limit.to_string());
        match place {
            Place::Native => {
                c.args(["sh", "-c", "ulimit -v 6000000; exec \"$@\"", "sh"]).arg(&self.native);
            }
            Place::Miri(t, flags) => {
                c.args(["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", "vmiri", "--target", t, "--"]);
                c.current_dir(&self.harness)
                    .env("MIRIFLAGS", flags)
                    .env("CARGO_TARGET_DIR", self.miri.join(t))
                    .env("XDG_CACHE_HOME", self.miri.join("sysroot").join(t));
            }
        }
        c.env("RUST_BACKTRACE", "0");
        c
    }

    /// Interprets the cases one after another, going on after one that crashes.
    fn run(&self, place: Place, cases: &[(u32, AnyCase)], limit: u64, stop_at_crash: bool) -> Vec<Out> {
        let mut out: Vec<Out> = vec![Out { res: Res::NotRun(String::new()), suspicious: vec![] }; cases.len()];
        let mut from = 0;
        let until = Instant::now() + Duration::from_secs(limit);
        while from < cases.len() {
            let left = until.saturating_duration_since(Instant::now()).as_secs();
            if left == 0 {
                break;
            }
            let id = self.n.fetch_add(1, Ordering::SeqCst);
            let file = self.work.join(format!("{}.cases", id));
            let (fo, fe) = (self.work.join(format!("{}.out", id)), self.work.join(format!("{}.err", id)));
            std::fs::write(&file, bincode::serialize(&cases[from..]).unwrap()).unwrap();
            let mut c = self.command(place, left);
            c.arg(&file).stdin(Stdio::null());
            c.stdout(std::fs::File::create(&fo).unwrap()).stderr(std::fs::File::create(&fe).unwrap());
            self.processes.fetch_add(1, Ordering::SeqCst);
            let status = c.status();
            let o = String::from_utf8_lossy(&std::fs::read(&fo).unwrap_or_default()).to_string();
            let e = String::from_utf8_lossy(&std::fs::read(&fe).unwrap_or_default()).to_string();
            for f in [&file, &fo, &fe] {
                let _ = std::fs::remove_file(f);
            }
            let mut at = None;
            let mut done = false;
            for l in o.lines() {
                let mut w = l.splitn(2, ' ');
                match (w.next(), w.next()) {
                    (Some("S"), Some(i)) => at = i.parse::<usize>().ok().map(|x| x + from),
                    (Some("P"), Some(m)) => {
                        // a mistake of the interpreter's own is none of the crate's
                        if let Some(i) = at {
                            if !["vint/src", "vmiri/src", "vcase/src"].iter().any(|x| m.contains(x)) {
                                out[i].suspicious.push(m.to_string());
                            }
                        }
                    }
                    (Some("E"), Some(m)) => {
                        let f: Vec<&str> = m.splitn(4, ' ').collect();
                        if let (Some(i), 4) = (at, f.len()) {
                            out[i].res = if f[3] == "ok" {
                                Res::Ok { digest: f[1].to_string(), nontrivial: f[2] == "1" }
                            } else {
                                Res::Fail(f[3].to_string())
                            };
                        }
                    }
                    (Some("done"), None) => done = true,
                    _ => {}
                }
            }
            if done {
                break;
            }
            let code = status.as_ref().ok().and_then(|x| x.code());
            let Some(i) = at else {
                for o in &mut out[from..] {
                    o.res = Res::NotRun(format!("did not start: {}", tail(&e)));
                }
                break;
            };
            if code == Some(124) || code == Some(137) && e.is_empty() {
                out[i].res = Res::NotRun("time limit".to_string());
                break;
            }
            let ub = e.contains("Undefined Behavior") || e.contains("abnormal termination") || e.contains("the evaluated program aborted");
            let native = place == Place::Native;
            out[i].res = if native || ub {
                Res::Crash(if native { format!("{:?}: {}", status.ok(), tail(&e)) } else { tail(&e) })
            } else {
                // not supported, out of memory
                Res::NotRun(tail(&e))
            };
            if stop_at_crash && (native || ub) {
                break;
            }
            from = i + 1;
        }
        out
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }
}
/// The part of a long message that says what happened.
fn tail(e: &str) -> String {
    let at = e.find("error: Undefined").or(e.find("error:")).unwrap_or(e.len().saturating_sub(1500));
    let mut at = at;
    while !e.is_char_boundary(at) {
        at -= 1;
    }
    e[at..].chars().take(2500).collect()
}

/// What a replay stores.
#[derive(Serialize, Deserialize)]
struct Stored {
    place: String,
    case: AnyCase,
}

fn strategy(kind: usize, len: usize) -> BoxedStrategy<AnyCase> {
    match kind {
        0 => s::program(len.max(2)).prop_map(AnyCase::Prog).boxed(),
        1 => s::mut_case(len.max(2)).prop_map(AnyCase::Mut).boxed(),
        2 => s::pair().prop_map(AnyCase::Pair).boxed(),
        3 => s::iter_case(len.max(2)).prop_map(AnyCase::Iter).boxed(),
        4 => s::ord_case(len.max(2)).prop_map(AnyCase::Ord).boxed(),
        5 => s::export_case().prop_map(AnyCase::IntOut).boxed(),
        6 => s::import_case().prop_map(AnyCase::IntIn).boxed(),
        7 => s::export_case().prop_map(AnyCase::ArrOut).boxed(),
        8 => s::import_case().prop_map(AnyCase::ArrIn).boxed(),
        9 => s::collect_case().prop_map(AnyCase::Collect).boxed(),
        10 => s::fmt_case().prop_map(AnyCase::Fmt).boxed(),
        _ => s::repr_case().prop_map(AnyCase::Repr).boxed(),
    }
}

/// Is this outcome a violation? `host`: that of the same case here.
fn judge(property: &str, place: Place, o: &Out, host: Option<&Out>) -> Option<String> {
    if property == "C22" {
        if let Res::Crash(m) = &o.res {
            return Some(format!("{}: {}", place.name(), m));
        }
        return o.suspicious.first().map(|m| format!("{}: {}", place.name(), m));
    }
    let h = host?;
    let Res::Ok { digest: hd, .. } = &h.res else { return None };
    match &o.res {
        Res::Ok { digest, .. } if digest == hd => None,
        Res::Ok { .. } => Some(format!("{}: the observations differ from those on {}", place.name(), HOST)),
        Res::Fail(m) | Res::Crash(m) => Some(format!("{}: {} (holds on {})", place.name(), m, HOST)),
        Res::NotRun(_) => None,
    }
}

fn eval(w: &World, property: &str, place: Place, entry: u32, c: &AnyCase) -> Option<String> {
    let one = [(entry, c.clone())];
    let host = if property == "C23" { Some(w.run(Place::Native, &one, 60, true).remove(0)) } else { None };
    let o = w.run(place, &one, 60, true).remove(0);
    judge(property, place, &o, host.as_ref())
}

struct Gen {
    entry: u32,
    kind: usize,
    case: AnyCase,
    /// how to make the tree again
    salt: String,
    len: usize,
}

fn main() {
    let property = std::env::var("VERIF_PROPERTY").expect("VERIF_PROPERTY");
    let cfg = Cfg::from_env();
    let code = {
        let w = World::new(&cfg, &property);
        if cfg.replay.is_some() { replay(&cfg, &w, &property) } else { search(&cfg, &w, &property) }
    };
    std::process::exit(code);
}

fn replay(cfg: &Cfg, w: &World, property: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(cfg.replay.as_ref().unwrap()).expect("replay file")).expect("replay file");
    let st: Stored = serde_json::from_value(r.case.clone()).expect("case");
    let repr = matches!(st.case, AnyCase::Repr(_));
    let Some(e) = w.entries.iter().position(|x| x.name == r.target && x.source == r.source && x.repr == repr) else {
        eprintln!("no enum {} of this definition in this build", r.target);
        return 2;
    };
    match eval(w, property, Place::parse(&st.place), e as u32, &st.case) {
        Some(m) => {
            vrun::violation(cfg, &Replay { message: m, ..r });
            1
        }
        None => {
            println!("held: {} on {}", r.property, r.target);
            0
        }
    }
}

/// Cases for all enums: `per` of every kind in `kinds`.
fn generate(cfg: &Cfg, w: &World, what: &str, per: &dyn Fn(usize, &Entry, usize) -> usize, len: &dyn Fn(&Entry) -> usize) -> Vec<Gen> {
    let mut v = vec![];
    for (i, e) in w.entries.iter().enumerate() {
        for kind in 0..12 {
            if (kind == 11) != e.repr {
                continue;
            }
            let st = strategy(kind, len(e));
            for k in 0..per(i, e, kind) {
                let salt = format!("{} {} {} {} {}", what, e.name, i, kind, k);
                let tree = st.new_tree(&mut cfg.runner(&salt)).expect("generator");
                v.push(Gen { entry: i as u32, kind, case: tree.current(), salt, len: len(e) });
            }
        }
    }
    v
}

/// Runs everything on some processes at a time; a crash or a violation ends the search.
#[allow(clippy::too_many_arguments)]
fn all(cfg: &Cfg, w: &World, place: Place, gens: &[Gen], size: usize, until: Instant, stop: &AtomicBool, threads: usize, bad: &(dyn Fn(usize, &Out) -> bool + Sync)) -> Vec<Out> {
    let out = Mutex::new(vec![Out { res: Res::NotRun("not reached".into()), suspicious: vec![] }; gens.len()]);
    let next = AtomicUsize::new(0);
    // cases of one enum are spread
    let chunks = gens.len().div_ceil(size).max(1);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(chunks) {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= chunks || stop.load(Ordering::SeqCst) || Instant::now() > until {
                    break;
                }
                let ix: Vec<usize> = (k..gens.len()).step_by(chunks).collect();
                let cases: Vec<(u32, AnyCase)> = ix.iter().map(|i| (gens[*i].entry, gens[*i].case.clone())).collect();
                let left = until.saturating_duration_since(Instant::now()).as_secs().max(5);
                let r = w.run(place, &cases, left, true);
                let mut o = out.lock().unwrap();
                for (i, r) in ix.into_iter().zip(r) {
                    if matches!(r.res, Res::Crash(_)) || bad(i, &r) {
                        stop.store(true, Ordering::SeqCst);
                    }
                    o[i] = r;
                }
            });
        }
    });
    let _ = cfg;
    out.into_inner().unwrap()
}

#[derive(Default)]
struct Tally {
    ran: u64,
    nontrivial: HashSet<u64>,
    kinds: BTreeMap<&'static str, u64>,
    places: BTreeMap<String, u64>,
    not_run: BTreeMap<String, u64>,
    failed_here: u64,
    samples: Vec<serde_json::Value>,
}
impl Tally {
    fn add(&mut self, w: &World, place: Place, gens: &[Gen], out: &[Out], host: Option<&[Out]>) {
        for (i, (g, o)) in gens.iter().zip(out).enumerate() {
            match &o.res {
                Res::NotRun(m) => *self.not_run.entry(m.lines().next().unwrap_or("").chars().take(120).collect()).or_default() += 1,
                r => {
                    if let Some(h) = host {
                        if !matches!(h[i].res, Res::Ok { .. }) {
                            self.failed_here += 1;
                            continue;
                        }
                    }
                    self.ran += 1;
                    *self.kinds.entry(g.case.kind()).or_default() += 1;
                    *self.places.entry(place.name()).or_default() += 1;
                    if let Res::Ok { nontrivial: true, .. } = r {
                        let name = &w.entries[g.entry as usize].name;
                        let h = vrun::fnv(format!("{} {} {:?}", place.name(), name, g.case).as_bytes());
                        if self.nontrivial.insert(h) && place != Place::Native && self.samples.len() < 6 && self.ran % 37 == 0 {
                            self.samples.push(json!({"enum": name, "where": place.name(), "case": format!("{:?}", g.case)}));
                        }
                    }
                }
            }
        }
    }
}

fn search(cfg: &Cfg, w: &World, property: &str) -> i32 {
    let until = cfg.deadline(480, 3000);
    let mut tally = Tally::default();
    let mut found: Vec<(usize, Place, String)> = vec![];
    let mut gens: Vec<Gen>;
    let stop = AtomicBool::new(false);
    let scale = |n: usize| ((n as f64) * cfg.scale).ceil() as usize;
    // earlier failures first
    let mut regressed = 0;
    let mut regress_found: Vec<Replay> = vec![];
    for r in vrun::regressions(cfg, property) {
        let st: Stored = serde_json::from_value(r.case.clone()).expect("regression case");
        let repr = matches!(st.case, AnyCase::Repr(_));
        if let Some(e) = w.entries.iter().position(|x| x.name == r.target && x.source == r.source && x.repr == repr) {
            regressed += 1;
            if let Some(m) = eval(w, property, Place::parse(&st.place), e as u32, &st.case) {
                regress_found.push(Replay { message: m, ..r });
            }
        }
    }
    let short = |e: &Entry| match e.n {
        0..=40 => 14,
        41..=80 => 9,
        81..=140 => 6,
        _ => 3,
    };
    let thorough = cfg.thorough;
    // the interpreter is slow: all kinds in turn, by enum and seed
    let seed = cfg.seed as usize;
    let few = |i: usize, e: &Entry, kind: usize| -> usize {
        if e.words > 120 {
            return (thorough && kind == 0) as usize;
        }
        if thorough {
            return if e.n > 140 { 2 } else if kind == 0 { 16 } else { 6 };
        }
        if property == "C23" && e.n <= 140 {
            match kind {
                5 => return 2,
                6 | 7 => return 1,
                _ => {}
            }
        }
        match kind {
            0 if e.n > 140 => 1,
            0 => 2,
            11 => 2,
            _ if e.n > 140 => ((i + kind + seed) % 5 == 0) as usize,
            _ => ((i + kind + seed) % 3 == 0) as usize,
        }
    };
    if property == "C22" {
        // natively, with debug assertions: many
        let many = scale(if thorough { 600 } else { 60 });
        gens = generate(cfg, w, "C22 native", &|_, _, kind| if kind == 0 { many * 3 } else { many }, &|e| if e.n > 140 { 10 } else { 24 });
        let out = all(cfg, w, Place::Native, &gens, 600, until, &stop, cfg.threads, &|_, o| judge(property, Place::Native, o, None).is_some());
        tally.add(w, Place::Native, &gens, &out, None);
        for (i, o) in out.iter().enumerate() {
            if let Some(m) = judge(property, Place::Native, o, None) {
                found.push((i, Place::Native, m));
            }
        }
        if found.is_empty() {
            gens = generate(cfg, w, "C22 miri", &|i, e, k| scale(few(i, e, k)), &short);
            for (j, place) in [Place::Miri(HOST, STACKED), Place::Miri(HOST, TREE)].into_iter().enumerate() {
                // the other aliasing model on a part
                let part: Vec<usize> = (0..gens.len()).filter(|i| (i % 6 == 5) == (j == 1)).collect();
                let sub: Vec<Gen> = part.iter().map(|i| { let g = &gens[*i]; Gen { entry: g.entry, kind: g.kind, case: g.case.clone(), salt: g.salt.clone(), len: g.len } }).collect();
                let out = all(cfg, w, place, &sub, 12, until, &stop, cfg.threads, &|_, o| judge(property, place, o, None).is_some());
                tally.add(w, place, &sub, &out, None);
                for (i, o) in part.iter().zip(&out) {
                    if let Some(m) = judge(property, place, o, None) {
                        found.push((*i, place, m));
                    }
                }
            }
        }
    } else {
        gens = generate(cfg, w, "C23", &|i, e, k| scale(few(i, e, k)), &short);
        let host = all(cfg, w, Place::Native, &gens, 200, until, &AtomicBool::new(false), cfg.threads, &|_, _| false);
        let pick = |j: usize| -> Vec<usize> {
            // quick runs give each target every case of the kinds that differ most, and a third of the others
            (0..gens.len()).filter(|i| thorough || [0, 5, 6, 7, 8, 11].contains(&gens[*i].kind) || i % 3 == j).collect()
        };
        for (j, t) in TARGETS.iter().enumerate() {
            let place = Place::Miri(t, PLAIN);
            let part = pick(j);
            let sub: Vec<Gen> = part.iter().map(|i| { let g = &gens[*i]; Gen { entry: g.entry, kind: g.kind, case: g.case.clone(), salt: g.salt.clone(), len: g.len } }).collect();
            let hs: Vec<Out> = part.iter().map(|i| host[*i].clone()).collect();
            let out = all(cfg, w, place, &sub, 12, until, &stop, cfg.threads, &|i, o| judge(property, place, o, Some(&hs[i])).is_some());
            tally.add(w, place, &sub, &out, Some(&hs));
            for ((i, o), h) in part.iter().zip(&out).zip(&hs) {
                if let Some(m) = judge(property, place, o, Some(h)) {
                    found.push((*i, place, m));
                }
            }
        }
    }
    let mut ev = Evidence::new(
        property,
        if property == "C22" {
            "random programs and histories over the whole API (constructors, mutation, algebra, iterators from both ends, conversions of every width and length, unchecked constructors on valid patterns, formatting, deserialization of hostile tokens) for every enum: natively with debug assertions and the compiler's checks for invalid values, and a part under Miri with Stacked and Tree Borrows; a report of undefined behaviour, an abort, a signal or an arithmetic overflow is a violation; non-trivial: as in the check of the kind of case (programs: two steps made another set of two or more members with three kinds of operation)"
        } else {
            "random programs and histories for every enum, interpreted here and under Miri for 32-bit little-endian, 64-bit big-endian and 32-bit big-endian targets, against the model on each target and with a digest of all observations of programs compared with this machine's; non-trivial: as in the check of the kind of case"
        },
    );
    ev.evaluations = tally.ran;
    ev.distinct_nontrivial = tally.nontrivial.len() as u64;
    ev.samples = std::mem::take(&mut tally.samples);
    ev.violations = (found.len() + regress_found.len()) as u64;
    ev.extra.insert("kinds".into(), json!(tally.kinds));
    ev.extra.insert("cases_by_place".into(), json!(tally.places));
    ev.extra.insert("not_run".into(), json!(tally.not_run));
    ev.extra.insert("left_to_other_checks_because_they_fail_here_too".into(), json!(tally.failed_here));
    ev.extra.insert("enums".into(), json!(w.entries.iter().filter(|x| !x.repr).count()));
    ev.extra.insert("processes".into(), json!(w.processes.load(Ordering::SeqCst)));
    ev.extra.insert("regression_inputs_replayed".into(), json!(regressed));
    ev.assumptions = vec!["undefined behaviour is what Miri and the compiler's debug checks recognise".to_string()];
    // nothing ran: no answer
    let ran_miri = tally.places.keys().any(|x| x.starts_with("Miri"));
    for r in &regress_found {
        vrun::violation(cfg, r);
    }
    let budget = Instant::now() + Duration::from_secs(if thorough { 300 } else { 75 });
    for (shown, (i, place, m)) in found.iter().enumerate() {
        if shown == 2 {
            break;
        }
        let g = &gens[*i];
        let mut tree = strategy(g.kind, g.len).new_tree(&mut cfg.runner(&g.salt)).expect("generator");
        let e = &w.entries[g.entry as usize];
        let (mut case, mut msg) = (g.case.clone(), m.clone());
        if Instant::now() < budget {
            let left = budget - Instant::now();
            let (c, x) = vrun::shrink(&mut tree, 400, left, |c| if Instant::now() > budget { None } else { eval(w, property, *place, g.entry, c) });
            if !x.is_empty() {
                case = c;
                msg = x;
            }
        }
        vrun::violation(
            cfg,
            &Replay {
                property: property.to_string(),
                target: e.name.clone(),
                source: e.source.clone(),
                seed: cfg.seed,
                message: msg,
                note: format!("{:?}", case),
                case: serde_json::to_value(Stored { place: place.name(), case }).unwrap(),
            },
        );
    }
    ev.write(cfg);
    println!(
        "{}: {} cases ({}), {} distinct and non-trivial, {} violations, {:.1} s{}",
        property,
        tally.ran,
        tally.places.iter().map(|x| format!("{} {}", x.1, x.0)).collect::<Vec<_>>().join(", "),
        ev.distinct_nontrivial,
        ev.violations,
        cfg.start.elapsed().as_secs_f64(),
        if tally.not_run.is_empty() { String::new() } else { format!("; not run: {:?}", tally.not_run) }
    );
    if ev.violations > 0 {
        return 1;
    }
    if !ran_miri {
        eprintln!("nothing ran under Miri");
        return 2;
    }
    0
}
