//! Interprets stored cases, natively or under Miri for any target.
//! `vmiri --list`: the enums. `vmiri FILE`: runs the cases of FILE and says how each went.
use vcase::*;
use vint::{Cov, Subject};

type Ran = (Result<(), String>, bool, u64);
struct Entry {
    name: &'static str,
    source: &'static str,
    repr: bool,
    n: usize,
    words: usize,
    run: fn(&AnyCase) -> Ran,
}

fn go<T: Subject>(c: &AnyCase) -> Ran {
    let mut cov = Cov::default();
    let mut digest = 0xcbf29ce484222325;
    let r = match c {
        AnyCase::Prog(c) => vint::program::run::<T>(c, &mut cov, &mut digest),
        AnyCase::Mut(c) => vint::mutate::run::<T>(c, &mut cov),
        AnyCase::Pair(c) => vint::algebra::run::<T>(c, &mut cov).and_then(|_| vint::algebra::queries::<T>(c, &mut cov)),
        AnyCase::Iter(c) => vint::iter::run::<T>(c, &mut cov),
        AnyCase::Ord(c) => vint::laws::run::<T>(c, &mut cov),
        AnyCase::IntOut(c) => vint::ints::export::<T>(c, &mut cov),
        AnyCase::IntIn(c) => vint::ints::import::<T>(c, &mut cov),
        AnyCase::ArrOut(c) => vint::arrays::export::<T>(c, &mut cov),
        AnyCase::ArrIn(c) => vint::arrays::import::<T>(c, &mut cov),
        AnyCase::Collect(c) => vint::collect::run::<T>(c, &mut cov),
        AnyCase::Fmt(c) => vint::fmtcheck::run::<T>(c, &mut cov),
        AnyCase::Repr(_) => Ok(()),
    };
    (r, cov.nontrivial, digest)
}
fn go_ops<T: vtypes::OpsSubject>(c: &AnyCase) -> Ran {
    let (r, n, d) = go::<T>(c);
    match c {
        AnyCase::Pair(c) => {
            let mut cov = Cov::default();
            let r = r.and_then(|_| vint::algebra::run_ops::<T>(c, &mut cov)).and_then(|_| vint::algebra::queries_ops::<T>(c, &mut cov));
            (r, n, d)
        }
        _ => (r, n, d),
    }
}
fn go_repr<T: vtypes::ReprSubject>(c: &AnyCase) -> Ran {
    match c {
        AnyCase::Repr(c) => {
            let mut cov = Cov::default();
            let r = vint::reprs::run::<T>(c, &mut cov);
            (r, cov.nontrivial, 0)
        }
        _ => go::<T>(c),
    }
}

fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = Vec::new();
    macro_rules! all {
        ($($t:path),*) => {$(
            v.push(Entry { name: <$t as Subject>::INFO.name, source: <$t as Subject>::INFO.source, repr: false, n: <$t as Subject>::INFO.n(), words: <$t as Subject>::INFO.words(), run: go::<$t> });
        )*};
    }
    vtypes::all_types!(all);
    macro_rules! ops {
        ($($t:path),*) => {$(
            v[<$t as Subject>::INFO.index].run = go_ops::<$t>;
        )*};
    }
    macro_rules! repr {
        ($($t:path),*) => {$(
            v.push(Entry { name: <$t as Subject>::INFO.name, source: <$t as Subject>::INFO.source, repr: true, n: <$t as Subject>::INFO.n(), words: <$t as Subject>::INFO.words(), run: go_repr::<$t> });
        )*};
    }
    vtypes::ops_types!(ops);
    vtypes::repr_types!(repr);
    v
}

fn main() {
    if cfg!(miri) {
        run();
    } else {
        // sets of huge enums are large values
        std::thread::Builder::new().stack_size(512 << 20).spawn(run).expect("thread").join().expect("run");
    }
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    let entries = entries();
    if a[1] == "--list" {
        for e in &entries {
            println!("{}\t{}\t{}\t{}\t{}", e.name, e.repr, e.n, e.words, e.source.replace('\n', "\x01"));
        }
        return;
    }
    // an arithmetic or indexing error inside a conversion that may panic
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|x| x.to_string()).unwrap_or_default();
        let low = m.to_lowercase();
        if (low.starts_with("attempt to ") && low.contains("overflow")) || low.contains("invalid value") || low.contains("unsafe precondition") {
            println!("P {} at {}", m.replace('\n', " "), at);
        }
    }));
    let bytes = std::fs::read(&a[1]).expect("case file");
    let cases: Vec<(u32, AnyCase)> = bincode::deserialize(&bytes).expect("cases");
    for (i, (t, c)) in cases.iter().enumerate() {
        println!("S {}", i);
        let (r, nontrivial, digest) = (entries[*t as usize].run)(c);
        match r {
            Ok(()) => println!("E {} {:x} {} ok", i, digest, nontrivial as u8),
            Err(m) => println!("E {} {:x} {} {}", i, digest, nontrivial as u8, m.replace('\n', " ")),
        }
    }
    println!("done");
}
