//! Generates cases, turns each into modules, has them compiled and run, shrinks a failure.
use crate::engine::{Engine, Module, Outcome, Settings};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::time::{Duration, Instant};
use vrun::{Cfg, Evidence, Replay};

pub enum Expect {
    /// compiles, and its `run` returns Ok
    Runs,
    /// a compile error and no panic of the macro
    Refused,
    /// compiles with a warning with this code
    Warns(&'static str),
    /// compiles without any warning
    Silent,
}

pub struct Item {
    /// what the module is, for messages
    pub what: &'static str,
    pub module: Module,
    pub expect: Expect,
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned {
    fn items(&self) -> Vec<Item>;
    /// counted as non-trivial by the stated rule
    fn nontrivial(&self) -> bool;
    fn labels(&self) -> Vec<String>;
}

pub struct Check<C> {
    pub property: &'static str,
    pub rule: &'static str,
    pub fixed: Vec<C>,
    pub random: BoxedStrategy<C>,
    pub quick: usize,
    pub thorough: usize,
    pub assumptions: Vec<String>,
}

pub fn judge(e: &Expect, o: &Outcome) -> Result<(), String> {
    match e {
        Expect::Runs => o.ok(),
        Expect::Refused => {
            if o.errors.is_empty() {
                return Err("compiles, though it is outside the documented limits".to_string());
            }
            for d in &o.errors {
                if d.message.contains("panicked") || d.rendered.contains("proc-macro derive panicked") || d.message.contains("took longer") || d.message == "rustc failed" {
                    return Err(format!("the macro panics instead of reporting an error:\n{}", d.rendered.trim_end()));
                }
            }
            Ok(())
        }
        Expect::Warns(code) => {
            o.ok()?;
            if o.warnings.iter().any(|w| w.code == *code) { Ok(()) } else { Err(format!("compiles without the `{}` warning", code)) }
        }
        Expect::Silent => {
            o.ok()?;
            match o.warnings.first() {
                Some(w) => Err(format!("compiles with a warning:\n{}", w.rendered.trim_end())),
                None => Ok(()),
            }
        }
    }
}

fn eval<C: Case>(eng: &Engine, c: &C) -> Result<(), (String, String)> {
    for i in c.items() {
        let o = eng.batch(&i.module.settings, &[&i.module.source]).pop().unwrap();
        if let Err(m) = judge(&i.expect, &o) {
            return Err((format!("{}: {}", i.what, m), show(&i.module)));
        }
    }
    Ok(())
}

fn show(m: &Module) -> String {
    let s: &Settings = &m.settings;
    format!(
        "// edition {}, enumset with features of `{}`, linked as `{}`{}{}\n{}\n{}\n",
        s.edition, s.lib, s.extern_name,
        if s.no_std { ", no_std" } else { "" },
        if s.manifest { ", renamed in the manifest" } else { "" },
        s.attrs, m.source.trim_end()
    )
}

pub fn main<C: Case>(check: Check<C>) -> i32 {
    let cfg = Cfg::from_env();
    let eng = Engine::new(check.property);
    let r = go(&cfg, &eng, check);
    eng.done();
    r
}

fn go<C: Case>(cfg: &Cfg, eng: &Engine, check: Check<C>) -> i32 {
    if let Some(p) = &cfg.replay {
        let r: Replay = serde_json::from_slice(&std::fs::read(p).expect("replay file")).expect("replay file");
        let case: C = serde_json::from_value(r.case.clone()).expect("case");
        return match eval(eng, &case) {
            Err((m, note)) => {
                vrun::violation(cfg, &Replay { message: m, note, ..r });
                1
            }
            Ok(()) => {
                println!("held: {} on {:?}", r.property, case);
                0
            }
        };
    }
    let n = ((if cfg.thorough { check.thorough } else { check.quick }) as f64 * cfg.scale) as usize;
    let until = cfg.deadline(420, 2400);
    let mut cases: Vec<C> = vec![];
    for r in vrun::regressions(cfg, check.property) {
        cases.push(serde_json::from_value(r.case).expect("regression case"));
    }
    let n_regress = cases.len();
    cases.extend(check.fixed);
    let n_fixed = cases.len() - n_regress;
    let mut runner = cfg.runner(check.property);
    let mut trees = vec![];
    for _ in 0..n {
        let t = check.random.new_tree(&mut runner).expect("generator");
        cases.push(t.current());
        trees.push(t);
    }
    // one module may serve several cases
    let mut mods: Vec<Module> = vec![];
    let mut items = vec![];
    for (k, c) in cases.iter().enumerate() {
        for i in c.items() {
            mods.push(i.module);
            items.push((k, i.what, i.expect));
        }
    }
    let out = eng.all(&mods, cfg.threads, until);
    let mut failed: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let mut done: HashSet<usize> = HashSet::new();
    let mut missing: HashSet<usize> = HashSet::new();
    for (j, (k, what, expect)) in items.iter().enumerate() {
        match &out[j] {
            None => {
                missing.insert(*k);
            }
            Some(o) => {
                done.insert(*k);
                if let Err(m) = judge(expect, o) {
                    failed.entry(*k).or_insert((format!("{}: {}", what, m), show(&mods[j])));
                }
            }
        }
    }
    done.retain(|x| !missing.contains(x));
    let mut ev = Evidence::new(check.property, check.rule);
    ev.evaluations = done.len() as u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes = HashSet::new();
    for (k, c) in cases.iter().enumerate() {
        if done.contains(&k) {
            for l in c.labels() {
                *labels.entry(l).or_default() += 1;
            }
            if c.nontrivial() && hashes.insert(vrun::fnv(format!("{:?}", c).as_bytes())) && k >= n_fixed && ev.samples.len() < 5 {
                ev.samples.push(json!({"case": serde_json::to_value(c).unwrap(), "module": c.items().first().map(|x| x.module.source.clone())}));
            }
        }
    }
    ev.distinct_nontrivial = hashes.len() as u64;
    ev.assumptions = check.assumptions;
    ev.extra.insert("fixed_cases".into(), json!(n_fixed));
    ev.extra.insert("random_cases".into(), json!(n));
    ev.extra.insert("regression_inputs_replayed".into(), json!(n_regress));
    ev.extra.insert("modules".into(), json!(mods.len()));
    ev.extra.insert("crates_compiled".into(), json!(eng.crates.load(std::sync::atomic::Ordering::SeqCst)));
    ev.extra.insert("labels".into(), json!(labels));
    ev.extra.insert("stopped_by_time".into(), json!(!missing.is_empty()));
    ev.violations = failed.len() as u64;
    let mut shown = 0;
    let budget = Instant::now() + Duration::from_secs(if cfg.thorough { 300 } else { 90 });
    for (k, (m, note)) in &failed {
        if shown == 3 {
            break;
        }
        shown += 1;
        let first = n_regress + n_fixed;
        let (mut case, mut m, mut note) = (cases[*k].clone(), m.clone(), note.clone());
        if *k >= first && Instant::now() < budget {
            let left = budget - Instant::now();
            let mut last = None;
            let (c, msg) = vrun::shrink(&mut trees[*k - first], 300, left.min(Duration::from_secs(60)), |c| {
                match eval(eng, c) {
                    Err((m, n)) => {
                        last = Some((m.clone(), n));
                        Some(m)
                    }
                    Ok(()) => None,
                }
            });
            // alone in its crate it may hold: then the case as found is reported
            if !msg.is_empty() {
                case = c.clone();
                m = msg;
                note = eval(eng, &c).err().map(|x| x.1).or(last.map(|x| x.1)).unwrap_or(note);
            }
        }
        vrun::violation(
            cfg,
            &Replay {
                property: check.property.to_string(),
                target: format!("case {}", k),
                source: note.clone(),
                seed: cfg.seed,
                message: m,
                note,
                case: serde_json::to_value(&case).unwrap(),
            },
        );
    }
    ev.write(cfg);
    println!(
        "{}: {} cases in {} crates, {} distinct and non-trivial, {} violations, {:.1} s",
        check.property,
        ev.evaluations,
        eng.crates.load(std::sync::atomic::Ordering::SeqCst),
        ev.distinct_nontrivial,
        failed.len(),
        cfg.start.elapsed().as_secs_f64()
    );
    if failed.is_empty() { 0 } else { 1 }
}
