//! Interpreters: run one generated input against the real crate and against the model, for one
//! enum, and say where they differ.
pub mod algebra;
pub mod arrays;
pub mod build;
pub mod collect;
pub mod fmtcheck;
#[cfg(feature = "formats")]
pub mod hostile;
pub mod ints;
pub mod iter;
pub mod laws;
pub mod mutate;
pub mod program;
pub mod reprs;
pub mod rec;
#[cfg(feature = "formats")]
pub mod sercheck;

pub use enumset::{EnumSet, EnumSetType};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use vcase::*;
pub use vtypes::*;

pub type R = Result<(), String>;

/// What one case exercised.
#[derive(Default)]
pub struct Cov {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Cov {
    pub fn label(&mut self, s: &'static str) {
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// The members, by asking for every variant.
pub fn members<T: Subject>(s: &EnumSet<T>) -> Model {
    let mut m = Model::new();
    for d in T::INFO.discr {
        if s.contains(T::from_d(*d).unwrap()) {
            m.insert(*d);
        }
    }
    m
}
pub fn show(m: &Model) -> String {
    format!("{:?}", m.iter().collect::<Vec<_>>())
}
/// A set with these members, built by inserting them one by one.
pub fn canon<T: Subject>(m: &Model) -> EnumSet<T> {
    let mut s = EnumSet::new();
    for d in m {
        s.insert(T::from_d(*d).unwrap());
    }
    s
}
pub fn expect_members<T: Subject>(what: &str, s: &EnumSet<T>, m: &Model) -> R {
    expect_at(format_args!("{}", what), s, m)
}
/// The same, with a message that is only formatted if needed.
pub fn expect_at<T: Subject>(what: std::fmt::Arguments<'_>, s: &EnumSet<T>, m: &Model) -> R {
    let mut left = m.iter();
    let mut next = left.next();
    for d in T::INFO.discr {
        let expected = next == Some(d);
        if s.contains(T::from_d(*d).unwrap()) != expected {
            ensure!(false, "{}: members {}, expected {}", what, show(&members(s)), show(m));
        }
        if expected {
            next = left.next();
        }
    }
    ensure!(next.is_none(), "{}: members {}, expected {}", what, show(&members(s)), show(m));
    Ok(())
}
pub fn var<T: Subject>(i: u16) -> Option<T> {
    let d = T::INFO.discr;
    if d.is_empty() {
        None
    } else {
        Some(T::from_d(d[i as usize % d.len()]).unwrap())
    }
}
pub fn set_of<T: Subject>(s: &SetSpec) -> (EnumSet<T>, Model) {
    let m = s.model(T::INFO.discr);
    (canon(&m), m)
}
/// None if `f` panicked.
pub fn caught<V>(f: impl FnOnce() -> V) -> Option<V> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// An uncaught panic of `f` is a violation with its message.
pub fn no_panic<V>(what: &str, f: impl FnOnce() -> V) -> Result<V, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            Err(format!("{} panicked: {}", what, m))
        }
    }
}
pub fn hash_of<H: std::hash::Hash>(x: &H) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn shuffled<V>(mut v: Vec<V>, seed: u64) -> Vec<V> {
    let mut s = seed | 1;
    for i in (1..v.len()).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (s >> 33) as usize % (i + 1));
    }
    v
}
pub fn all_model<T: Subject>() -> Model {
    T::INFO.discr.iter().copied().collect()
}
pub fn compl<T: Subject>(m: &Model) -> Model {
    T::INFO.discr.iter().copied().filter(|x| !m.contains(x)).collect()
}
