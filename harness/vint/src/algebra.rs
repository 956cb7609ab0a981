//! C02: algebra, C03: queries.
use crate::*;

pub fn run<T: Subject>(c: &PairCase, cov: &mut Cov) -> R {
    let (ma, mb) = c.models(T::INFO.discr);
    let (a, b): (EnumSet<T>, EnumSet<T>) = (canon(&ma), canon(&mb));
    let or: Model = ma.union(&mb).copied().collect();
    let and: Model = ma.intersection(&mb).copied().collect();
    let sub: Model = ma.difference(&mb).copied().collect();
    let xor: Model = ma.symmetric_difference(&mb).copied().collect();
    let not: Model = compl::<T>(&ma);
    cov.nontrivial = !and.is_empty() && !sub.is_empty() && !not.is_empty();
    if !not.is_empty() && !ma.is_empty() {
        cov.label("proper subset");
    }
    if and.is_empty() {
        cov.label("disjoint");
    }
    if ma == mb {
        cov.label("equal operands");
    }
    no_panic("set algebra", || -> R {
        let e = expect_members::<T>;
        e("a.union(b)", &a.union(b), &or)?;
        e("a.intersection(b)", &a.intersection(b), &and)?;
        e("a.difference(b)", &a.difference(b), &sub)?;
        e("a.symmetrical_difference(b)", &a.symmetrical_difference(b), &xor)?;
        e("a.complement()", &a.complement(), &not)?;
        e("!a", &!a, &not)?;
        e("!!a", &!!a, &ma)?;
        e("a | b", &(a | b), &or)?;
        e("a & b", &(a & b), &and)?;
        e("a - b", &(a - b), &sub)?;
        e("a ^ b", &(a ^ b), &xor)?;
        e("a | into", &(a | Conv(b)), &or)?;
        e("a & into", &(a & Conv(b)), &and)?;
        e("a - into", &(a - Conv(b)), &sub)?;
        e("a ^ into", &(a ^ Conv(b)), &xor)?;
        macro_rules! asg {
            ($op:tt, $m:expr) => {
                let mut x = a;
                x $op b;
                e(concat!("a ", stringify!($op), " b"), &x, $m)?;
                let mut x = a;
                x $op Conv(b);
                e(concat!("a ", stringify!($op), " into"), &x, $m)?;
            };
        }
        asg!(|=, &or);
        asg!(&=, &and);
        asg!(-=, &sub);
        asg!(^=, &xor);
        if let Some(v) = var::<T>(c.v) {
            let d = v.d();
            let mut orv = ma.clone();
            orv.insert(d);
            let mut subv = ma.clone();
            subv.remove(&d);
            let andv: Model = ma.iter().copied().filter(|x| *x == d).collect();
            let xorv = if ma.contains(&d) { subv.clone() } else { orv.clone() };
            cov.label(if ma.contains(&d) { "variant inside" } else { "variant outside" });
            e("a | v", &(a | v), &orv)?;
            e("a & v", &(a & v), &andv)?;
            e("a - v", &(a - v), &subv)?;
            e("a ^ v", &(a ^ v), &xorv)?;
            macro_rules! asgv {
                ($op:tt, $m:expr) => {
                    let mut x = a;
                    x $op v;
                    e(concat!("a ", stringify!($op), " v"), &x, $m)?;
                };
            }
            asgv!(|=, &orv);
            asgv!(&=, &andv);
            asgv!(-=, &subv);
            asgv!(^=, &xorv);
        }
        e("a afterwards", &a, &ma)?;
        e("b afterwards", &b, &mb)
    })?
}

/// The operators the derive puts on the enum.
pub fn run_ops<T: OpsSubject>(c: &PairCase, cov: &mut Cov) -> R {
    let (ma, _) = c.models(T::INFO.discr);
    let a: EnumSet<T> = canon(&ma);
    let (v, w) = match (var::<T>(c.v), var::<T>(c.w)) {
        (Some(v), Some(w)) => (v, w),
        _ => return Ok(()),
    };
    cov.label("derived operators");
    cov.nontrivial = true;
    no_panic("derived operators", || -> R {
        let e = expect_members::<T>;
        let ms = |x: &[u32]| x.iter().copied().collect::<Model>();
        let (dv, dw) = (v.d(), w.d());
        e("v | w", &(v | w), &ms(&[dv, dw]))?;
        e("v & w", &(v & w), &if dv == dw { ms(&[dv]) } else { ms(&[]) })?;
        e("v - w", &(v - w), &if dv == dw { ms(&[]) } else { ms(&[dv]) })?;
        e("v ^ w", &(v ^ w), &if dv == dw { ms(&[]) } else { ms(&[dv, dw]) })?;
        let mv = ms(&[dv]);
        let or: Model = ma.union(&mv).copied().collect();
        let and: Model = mv.intersection(&ma).copied().collect();
        let sub: Model = mv.difference(&ma).copied().collect();
        let xor: Model = mv.symmetric_difference(&ma).copied().collect();
        e("v | a", &(v | a), &or)?;
        e("v & a", &(v & a), &and)?;
        e("v - a", &(v - a), &sub)?;
        e("v ^ a", &(v ^ a), &xor)?;
        e("v | into", &(v | Conv(a)), &or)?;
        e("v & into", &(v & Conv(a)), &and)?;
        e("v - into", &(v - Conv(a)), &sub)?;
        e("v ^ into", &(v ^ Conv(a)), &xor)?;
        e("!v", &!v, &compl::<T>(&mv))?;
        e("a afterwards", &a, &ma)
    })?
}

pub fn queries<T: Subject>(c: &PairCase, cov: &mut Cov) -> R {
    let (ma, mb) = c.models(T::INFO.discr);
    let (a, b): (EnumSet<T>, EnumSet<T>) = (canon(&ma), canon(&mb));
    cov.nontrivial = !ma.is_empty() && !mb.is_empty();
    let sub = ma.is_subset(&mb);
    let sup = ma.is_superset(&mb);
    let dis = ma.is_disjoint(&mb);
    if sub && !sup {
        cov.label("proper subset");
    }
    if sup && !sub {
        cov.label("proper superset");
    }
    if dis {
        cov.label("disjoint");
    }
    if !sub && !sup && !dis {
        cov.label("overlapping");
    }
    no_panic("queries", || -> R {
        for (n, s, m) in [("a", &a, &ma), ("b", &b, &mb)] {
            ensure!(s.len() == m.len(), "{} = {}: len {}", n, show(m), s.len());
            ensure!(s.is_empty() == m.is_empty(), "{} = {}: is_empty {}", n, show(m), s.is_empty());
            for d in T::INFO.discr {
                let v = T::from_d(*d).unwrap();
                ensure!(s.contains(v) == m.contains(d), "{} = {}: contains({}) {}", n, show(m), d, s.contains(v));
                // comparison with a variant
                let only = m.len() == 1 && m.contains(d);
                ensure!((*s == v) == only, "{} = {}: set == variant {}: {}", n, show(m), d, *s == v);
                ensure!((*s != v) == !only, "{} = {}: set != variant {}: {}", n, show(m), d, *s != v);
            }
        }
        ensure!(a.is_subset(b) == sub, "{}.is_subset({}): {}", show(&ma), show(&mb), a.is_subset(b));
        ensure!(a.is_superset(b) == sup, "{}.is_superset({}): {}", show(&ma), show(&mb), a.is_superset(b));
        ensure!(a.is_disjoint(b) == dis, "{}.is_disjoint({}): {}", show(&ma), show(&mb), a.is_disjoint(b));
        ensure!(b.is_subset(a) == sup, "b.is_subset(a) for a {} b {}", show(&ma), show(&mb));
        ensure!(b.is_superset(a) == sub, "b.is_superset(a) for a {} b {}", show(&ma), show(&mb));
        ensure!(b.is_disjoint(a) == dis, "b.is_disjoint(a) for a {} b {}", show(&ma), show(&mb));
        Ok(())
    })?
}

pub fn queries_ops<T: OpsSubject>(c: &PairCase, cov: &mut Cov) -> R {
    let (ma, mb) = c.models(T::INFO.discr);
    cov.nontrivial = !ma.is_empty() && T::INFO.n() > 1;
    cov.label("variant compared with set");
    no_panic("variant == set", || -> R {
        let mut one = Model::new();
        one.extend(T::INFO.discr.get(c.v as usize % T::INFO.n().max(1)));
        for m in [&ma, &mb, &one] {
            let s: EnumSet<T> = canon(m);
            for d in T::INFO.discr {
                let v = T::from_d(*d).unwrap();
                let only = m.len() == 1 && m.contains(d);
                ensure!((v == s) == only, "variant {} == set {}: {}", d, show(m), v == s);
                ensure!((v != s) == !only, "variant {} != set {}: {}", d, show(m), v != s);
            }
        }
        Ok(())
    })?
}
