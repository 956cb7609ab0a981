//! C11: constructors and collecting.
use crate::*;

struct Consts<T>(T);
impl<T: Subject> Consts<T> {
    const NEW: EnumSet<T> = EnumSet::new();
    const EMPTY: EnumSet<T> = EnumSet::empty();
    const ALL: EnumSet<T> = EnumSet::all();
    #[allow(deprecated)]
    const OLD_EMPTY: EnumSet<T> = EnumSet::EMPTY;
    #[allow(deprecated)]
    const OLD_ALL: EnumSet<T> = EnumSet::ALL;
}

/// An iterator with an unhelpful size hint.
struct Lying<I>(I);
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// A right but imprecise size hint.
struct Vague<I>(I);
impl<I: ExactSizeIterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len() / 2, Some(self.0.len() * 2 + 3))
    }
}

/// Ends once and then starts over: what comes after the end is not part of the sequence.
struct Restarting<I>(Option<I>, I);
impl<I: Iterator> Iterator for Restarting<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.0 {
            Some(i) => match i.next() {
                None => {
                    self.0 = None;
                    None
                }
                x => x,
            },
            None => self.1.next(),
        }
    }
}

pub fn run<T: Subject>(c: &CollectCase, cov: &mut Cov) -> R {
    no_panic("constructor", || inner::<T>(c, cov))?
}
#[allow(deprecated)]
fn inner<T: Subject>(c: &CollectCase, cov: &mut Cov) -> R {
    let e = expect_members::<T>;
    let none = Model::new();
    let all = all_model::<T>();
    e("new", &EnumSet::new(), &none)?;
    e("empty", &EnumSet::empty(), &none)?;
    e("default", &Default::default(), &none)?;
    e("all", &EnumSet::all(), &all)?;
    for (n, s, m) in [
        ("const new", Consts::<T>::NEW, &none),
        ("const empty", Consts::<T>::EMPTY, &none),
        ("EMPTY", Consts::<T>::OLD_EMPTY, &none),
        ("EMPTY at run time", EnumSet::EMPTY, &none),
        ("const all", Consts::<T>::ALL, &all),
        ("ALL", Consts::<T>::OLD_ALL, &all),
        ("ALL at run time", EnumSet::ALL, &all),
    ] {
        e(n, &s, m)?;
        ensure!(s == canon(m), "{} is not the set of its members", n);
        ensure!(s.len() == m.len(), "{}: len {}", n, s.len());
    }
    if let Some(v) = var::<T>(c.v) {
        let one: Model = [v.d()].into_iter().collect();
        e("only", &EnumSet::only(v), &one)?;
        e("from", &EnumSet::from(v), &one)?;
        let i: EnumSet<T> = v.into();
        e("into", &i, &one)?;
        ensure!(EnumSet::only(v) == canon(&one), "only({}) is not the set of its members", v.d());
    }
    let (init, mi) = set_of::<T>(&c.init);
    let vars: Vec<T> = c.vars.iter().filter_map(|x| var(*x)).collect();
    let mv: Model = vars.iter().map(|x| x.d()).collect();
    let mut sets: Vec<EnumSet<T>> = Vec::new();
    let mut ms = Model::new();
    for s in &c.sets {
        let (s, m) = set_of::<T>(s);
        sets.push(s);
        ms.extend(m);
    }
    cov.nontrivial = mv.len() >= 2 && ms.len() >= 2 && !mi.is_empty();
    if mv.len() < vars.len() {
        cov.label("repeated variants");
    }
    if ms.len() < sets.iter().map(|x| x.len()).sum() {
        cov.label("overlapping sets");
    }
    let with = |m: &Model| mi.union(m).copied().collect::<Model>();
    e("collect variants", &vars.iter().copied().collect(), &mv)?;
    e("collect variants lazily", &Lying(vars.iter().copied()).collect(), &mv)?;
    e("collect sets", &sets.iter().copied().collect(), &ms)?;
    e("collect sets reversed", &sets.iter().copied().rev().collect(), &ms)?;
    e("from_iter variants", &EnumSet::from_iter(vars.clone()), &mv)?;
    e("from_iter sets", &EnumSet::from_iter(sets.clone()), &ms)?;
    let mut x = init;
    x.extend(vars.iter().copied());
    e("extend variants", &x, &with(&mv))?;
    let mut x = init;
    x.extend(Lying(sets.iter().copied()));
    e("extend sets", &x, &with(&ms))?;
    // with other kinds of iterators
    e("collect variants, vague", &Vague(vars.iter().copied()).collect(), &mv)?;
    e("collect sets, vague", &Vague(sets.iter().copied()).collect(), &ms)?;
    e("sum of variants, vague", &Vague(vars.iter().copied()).sum(), &mv)?;
    e("sum of sets, vague", &Vague(sets.iter()).sum(), &ms)?;
    let every: Vec<T> = T::INFO.discr.iter().take(70).filter_map(|d| T::from_d(*d)).collect();
    e("collect up to the end", &Restarting(Some(vars.iter()), every.iter()).copied().collect(), &mv)?;
    e("sum up to the end", &Restarting(Some(vars.iter()), every.iter()).sum(), &mv)?;
    let full = [EnumSet::<T>::all()];
    e("collect sets up to the end", &Restarting(Some(sets.iter()), full.iter()).copied().collect(), &ms)?;
    e("sum sets up to the end", &Restarting(Some(sets.iter()), full.iter()).sum(), &ms)?;
    let mut x = init;
    x.extend(Restarting(Some(vars.iter()), every.iter()).copied());
    e("extend up to the end", &x, &with(&mv))?;
    let mut x = init;
    x.extend(Restarting(Some(sets.iter()), full.iter()).copied());
    e("extend with sets up to the end", &x, &with(&ms))?;
    // all of the sequence is taken, also once nothing can be added
    let mut n = 0;
    let mut x = init;
    x.extend(vars.iter().copied().inspect(|_| n += 1));
    ensure!(n == vars.len(), "extend took {} of {} variants", n, vars.len());
    n = 0;
    x.extend(sets.iter().copied().inspect(|_| n += 1));
    ensure!(n == sets.len(), "extend took {} of {} sets", n, sets.len());
    n = 0;
    let _: EnumSet<T> = vars.iter().copied().inspect(|_| n += 1).collect();
    ensure!(n == vars.len(), "collect took {} of {} variants", n, vars.len());
    n = 0;
    let _: EnumSet<T> = sets.iter().inspect(|_| n += 1).sum();
    ensure!(n == sets.len(), "sum took {} of {} sets", n, sets.len());
    let mut x = init;
    x.extend(init.iter());
    e("extend by itself", &x, &mi)?;
    e("sum of variants", &vars.iter().copied().sum(), &mv)?;
    e("sum of references to variants", &vars.iter().sum(), &mv)?;
    e("sum of sets", &sets.iter().copied().sum(), &ms)?;
    e("sum of references to sets", &sets.iter().sum(), &ms)?;
    e("collect of its iterator", &init.iter().collect(), &mi)?;
    e("collect of its reversed iterator", &init.iter().rev().collect(), &mi)?;
    e("sum of its iterator", &init.iter().sum(), &mi)?;
    let r: Option<EnumSet<T>> = vars.iter().map(|x| Some(*x)).collect();
    e("collect of options", &r.unwrap(), &mv)?;
    let (a, b): (EnumSet<T>, EnumSet<T>) = (Lying(vars.iter().copied())).partition(|x| x.d() % 2 == 0);
    e("partition, even", &a, &mv.iter().copied().filter(|x| x % 2 == 0).collect())?;
    e("partition, odd", &b, &mv.iter().copied().filter(|x| x % 2 == 1).collect())?;
    e("set extended is a copy", &init, &mi)
}
