//! C05: equality, hashing, ordering.
use crate::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn run<T: Subject>(c: &OrdCase, cov: &mut Cov) -> R {
    no_panic("comparison", || inner::<T>(c, cov))?
}

fn inner<T: Subject>(c: &OrdCase, cov: &mut Cov) -> R {
    let mut sets: Vec<(EnumSet<T>, Model)> = Vec::new();
    for (s, r) in &c.sets {
        let m = s.model(T::INFO.discr);
        let s = build::checked::<T>(&m, *r);
        sets.push((s, m));
    }
    let mut same = 0;
    let mut differ = 0;
    for (i, (a, ma)) in sets.iter().enumerate() {
        ensure!(*a == *a && a.cmp(a) == Ordering::Equal, "{} is not equal to itself", show(ma));
        for (j, (b, mb)) in sets.iter().enumerate() {
            let eq = ma == mb;
            let ctx = || format!("a {} ({:?}), b {} ({:?})", show(ma), c.sets[i].1, show(mb), c.sets[j].1);
            ensure!((*a == *b) == eq, "{}: a == b is {}", ctx(), *a == *b);
            ensure!((*a != *b) != eq, "{}: a != b is {}", ctx(), *a != *b);
            if eq {
                if i != j {
                    same += 1;
                }
                ensure!(hash_of(a) == hash_of(b), "{}: equal sets hash differently", ctx());
            } else {
                differ += 1;
            }
            let o = a.cmp(b);
            ensure!((o == Ordering::Equal) == eq, "{}: cmp is {:?}", ctx(), o);
            ensure!(b.cmp(a) == o.reverse(), "{}: cmp {:?} but reversed {:?}", ctx(), o, b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(o), "{}: cmp {:?}, partial_cmp {:?}", ctx(), o, a.partial_cmp(b));
            ensure!((a < b) == (o == Ordering::Less), "{}: cmp {:?}, < {}", ctx(), o, a < b);
            ensure!((a <= b) == (o != Ordering::Greater), "{}: cmp {:?}, <= {}", ctx(), o, a <= b);
            ensure!((a > b) == (o == Ordering::Greater), "{}: cmp {:?}, > {}", ctx(), o, a > b);
            ensure!((a >= b) == (o != Ordering::Less), "{}: cmp {:?}, >= {}", ctx(), o, a >= b);
            ensure!((*a).max(*b) == if o == Ordering::Greater { *a } else { *b }, "{}: max", ctx());
            ensure!((*a).min(*b) == if o == Ordering::Greater { *b } else { *a }, "{}: min", ctx());
            for (mc, k) in sets.iter().map(|x| (&x.1, &x.0)) {
                // transitive
                if a <= b && b <= k {
                    ensure!(a <= k, "{} c {}: <= is not transitive", ctx(), show(mc));
                    ensure!(a.cmp(k) == if o == Ordering::Less || b < k { Ordering::Less } else { Ordering::Equal },
                        "{} c {}: cmp is not transitive", ctx(), show(mc));
                }
                if b <= k {
                    let want = if a < b { b } else if a > k { k } else { a };
                    let got = no_panic("clamp", || (*a).clamp(*b, *k))?;
                    ensure!(got == *want, "{} c {}: a.clamp(b, c) is {:?}, expected {:?}", ctx(), show(mc), members(&got), members(want));
                }
            }
        }
    }
    cov.nontrivial = same > 0 && differ > 0;
    if same > 0 {
        cov.label("equal by two routes");
    }
    // a sorted vector is sorted for every pair
    let mut sorted: Vec<_> = sets.iter().map(|x| x.0).collect();
    sorted.sort();
    for w in sorted.windows(2) {
        ensure!(w[0] <= w[1], "sort() left {:?} before {:?}", members(&w[0]), members(&w[1]));
    }
    // collections keyed by sets against one keyed by membership
    let mut h: HashMap<EnumSet<T>, u32> = HashMap::new();
    let mut b: BTreeMap<EnumSet<T>, u32> = BTreeMap::new();
    let mut e: BTreeMap<Model, u32> = BTreeMap::new();
    for (n, (kind, k)) in c.ops.iter().enumerate() {
        if sets.is_empty() {
            break;
        }
        let (s, m) = &sets[*k as usize % sets.len()];
        let n = n as u32;
        match kind % 4 {
            0 | 1 => {
                let (x, y, z) = (h.insert(*s, n), b.insert(*s, n), e.insert(m.clone(), n));
                ensure!(x == z && y == z, "insert of key {}: hashed {:?}, ordered {:?}, expected {:?}", show(m), x, y, z);
                if z.is_some() {
                    cov.label("key replaced");
                }
            }
            2 => {
                let (x, y, z) = (h.remove(s), b.remove(s), e.remove(m));
                ensure!(x == z && y == z, "remove of key {}: hashed {:?}, ordered {:?}, expected {:?}", show(m), x, y, z);
            }
            _ => {
                let (x, y, z) = (h.get(s), b.get(s), e.get(m));
                ensure!(x == z && y == z, "lookup of key {}: hashed {:?}, ordered {:?}, expected {:?}", show(m), x, y, z);
            }
        }
    }
    ensure!(h.len() == e.len() && b.len() == e.len(), "number of keys: hashed {}, ordered {}, expected {}", h.len(), b.len(), e.len());
    for (m, v) in &e {
        let s: EnumSet<T> = canon(m);
        ensure!(h.get(&s) == Some(v) && b.get(&s) == Some(v), "key {} not found by another set with these members", show(m));
    }
    let keys: Vec<_> = b.keys().copied().collect();
    for w in keys.windows(2) {
        ensure!(w[0] < w[1], "ordered map keys out of order");
    }
    let hs: HashSet<_> = sets.iter().map(|x| x.0).collect();
    let ms: BTreeSet<_> = sets.iter().map(|x| x.1.clone()).collect();
    ensure!(hs.len() == ms.len(), "HashSet of the sets has {} elements, expected {}", hs.len(), ms.len());
    Ok(())
}
