//! C04: iteration.
use crate::*;
use enumset::EnumSetIter;
use std::collections::VecDeque;

type M = VecDeque<u32>;

fn ds<T: Subject>(v: Vec<T>) -> Vec<u32> {
    v.into_iter().map(|x| x.d()).collect()
}

/// Consume `it` by an adapter and compare with the model.
fn drain<T: Subject>(it: EnumSetIter<T>, m: &M, how: Drain, cov: &mut Cov) -> R {
    let mv: Vec<u32> = m.iter().copied().collect();
    let left = mv.clone();
    let rv: Vec<u32> = m.iter().rev().copied().collect();
    macro_rules! same {
        ($got:expr, $exp:expr) => {{
            let (g, e) = ($got, $exp);
            ensure!(g == e, "{:?} gave {:?}, expected {:?} (left {:?})", how, g, e, left);
        }};
    }
    match how {
        Drain::Collect => {
            cov.label("collect");
            same!(ds(it.collect::<Vec<T>>()), mv)
        }
        Drain::RevCollect => {
            cov.label("rev collect");
            same!(ds(it.rev().collect::<Vec<T>>()), rv)
        }
        Drain::Fold => same!(it.fold(Vec::new(), |mut a, x| { a.push(x.d()); a }), mv),
        Drain::RFold => same!(it.rfold(Vec::new(), |mut a, x| { a.push(x.d()); a }), rv),
        Drain::Last => same!(it.last().map(|x| x.d()), mv.last().copied()),
        Drain::Count => same!(it.count(), mv.len()),
        Drain::Min => same!(it.min_by_key(|x| x.d()).map(|x| x.d()), mv.first().copied()),
        Drain::Max => same!(it.max_by_key(|x| x.d()).map(|x| x.d()), mv.last().copied()),
        Drain::Skip(k) => same!(ds(it.skip(k as usize).collect::<Vec<T>>()), mv.iter().copied().skip(k as usize).collect::<Vec<_>>()),
        Drain::SkipRev(k) => same!(ds(it.skip(k as usize).rev().collect::<Vec<T>>()), mv.iter().copied().skip(k as usize).rev().collect::<Vec<_>>()),
        Drain::StepBy(k) => same!(ds(it.step_by(k as usize + 1).collect::<Vec<T>>()), mv.iter().copied().step_by(k as usize + 1).collect::<Vec<_>>()),
        Drain::Take(k) => same!(ds(it.take(k as usize).collect::<Vec<T>>()), mv.iter().copied().take(k as usize).collect::<Vec<_>>()),
        Drain::TakeRev(k) => same!(ds(it.take(k as usize).rev().collect::<Vec<T>>()), mv.iter().copied().take(k as usize).rev().collect::<Vec<_>>()),
        Drain::Peekable => {
            let mut p = it.peekable();
            let mut out = Vec::new();
            loop {
                let pk = p.peek().map(|x| x.d());
                let n = p.next().map(|x| x.d());
                same!(pk, n);
                match n {
                    Some(x) => out.push(x),
                    None => break,
                }
                if let Some(b) = p.next_back() {
                    out.push(b.d());
                }
            }
            out.sort();
            same!(out, mv)
        }
        Drain::Chain => {
            let c = it.clone().chain(it);
            let mut e = mv.clone();
            e.extend(&mv);
            same!(ds(c.collect::<Vec<T>>()), e)
        }
        Drain::Zip => {
            let z: Vec<_> = it.clone().zip(it.rev()).map(|x| (x.0.d(), x.1.d())).collect();
            same!(z, mv.iter().copied().zip(rv.iter().copied()).collect::<Vec<_>>())
        }
        Drain::ForEach => {
            let mut o = Vec::new();
            it.for_each(|x| o.push(x.d()));
            same!(o, mv)
        }
        Drain::RevNth(k) => {
            let mut r = it.rev();
            let mut e = rv.iter().copied();
            same!(r.nth(k as usize).map(|x| x.d()), e.nth(k as usize));
            same!(r.size_hint(), e.size_hint());
            same!(ds(r.collect::<Vec<T>>()), e.collect::<Vec<_>>())
        }
        Drain::Enumerate => {
            same!(it.enumerate().map(|x| (x.0, x.1.d())).rev().collect::<Vec<_>>(),
                  mv.iter().copied().enumerate().rev().collect::<Vec<_>>())
        }
        Drain::RPosition(i) => {
            let t = pick(&mv, i);
            let mut it = it;
            same!(it.rposition(|x| Some(x.d()) == t), mv.iter().rposition(|x| Some(*x) == t))
        }
        Drain::AlternateEnds => {
            let mut it = it;
            let mut m = m.clone();
            let mut front = true;
            loop {
                let (g, e) = if front { (it.next(), m.pop_front()) } else { (it.next_back(), m.pop_back()) };
                let g = g.map(|x| x.d());
                same!(g, e);
                same!(it.size_hint(), (m.len(), Some(m.len())));
                if g.is_none() {
                    break;
                }
                front = !front;
            }
        }
        Drain::Partition(i) => {
            let t = pick(&mv, i).unwrap_or(0);
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| x.d() < t);
            let (ea, eb): (Vec<u32>, Vec<u32>) = mv.iter().partition(|x| **x < t);
            same!((ds(a), ds(b)), (ea, eb))
        }
        Drain::Cycle(k) => same!(ds(it.cycle().take(k as usize).collect::<Vec<T>>()), mv.iter().copied().cycle().take(k as usize).collect::<Vec<_>>()),
        Drain::Inspect => {
            let mut o = Vec::new();
            let n = it.inspect(|x| o.push(x.d())).skip_while(|x| x.d() % 2 == 0).count();
            same!((o, n), (mv.clone(), mv.iter().skip_while(|x| **x % 2 == 0).count()))
        }
        Drain::Fuse => {
            let mut f = it.fuse();
            let mut o = Vec::new();
            while let Some(x) = f.next() {
                o.push(x.d());
            }
            same!(f.next().map(|x| x.d()), None);
            same!(f.next_back().map(|x| x.d()), None);
            same!(o, mv)
        }
        Drain::MapRev => same!(it.map(|x| x.d()).rev().rev().collect::<Vec<_>>(), mv),
        Drain::IntoSet => {
            let s: EnumSet<T> = it.collect();
            same!(members(&s), mv.iter().copied().collect::<Model>())
        }
        Drain::IntoSetRev => {
            let s: EnumSet<T> = it.rev().collect();
            same!(members(&s), mv.iter().copied().collect::<Model>())
        }
        Drain::Other(k, i) => {
            cov.label("other adapters");
            other(it, &mv, k, i).map_err(|e| format!("{:?}: {} (left {:?})", how, e, left))?
        }
    }
    Ok(())
}

fn other<T: Subject>(mut it: EnumSetIter<T>, mv: &[u32], k: u8, i: u16) -> R {
    let key = |x: u32| x as usize % (i as usize % 7 + 1);
    let t = pick(mv, i).unwrap_or(0);
    let model = || mv.iter().copied();
    macro_rules! same {
        ($what:expr, $got:expr, $exp:expr) => {{
            let (g, e) = ($got, $exp);
            ensure!(g == e, "{} gave {:?}, expected {:?}", $what, g, e);
        }};
    }
    match k % 27 {
        // ties and orders other than the ascending one
        0 => same!("min_by_key", it.min_by_key(|x| key(x.d())).map(|x| x.d()), model().min_by_key(|x| key(*x))),
        1 => same!("max_by_key", it.max_by_key(|x| key(x.d())).map(|x| x.d()), model().max_by_key(|x| key(*x))),
        2 => same!("min_by", it.min_by(|a, b| b.d().cmp(&a.d())).map(|x| x.d()), model().last()),
        3 => same!("max_by", it.max_by(|a, b| b.d().cmp(&a.d())).map(|x| x.d()), model().next()),
        4 => same!("reduce", it.reduce(|a, b| if key(a.d()) < key(b.d()) { b } else { a }).map(|x| x.d()), model().reduce(|a, b| if key(a) < key(b) { b } else { a })),
        5 => {
            // against the same set without its member t
            let mut rest: EnumSet<T> = it.clone().collect();
            if let Some(v) = T::from_d(t) {
                rest.remove(v);
            }
            let without: Vec<u32> = model().filter(|x| *x != t).collect();
            same!("eq", it.clone().eq(it.clone()), true);
            same!("eq", it.clone().eq(rest.iter()), without.len() == mv.len());
            same!("ne", it.clone().ne(rest.iter()), without.len() != mv.len());
            same!("cmp", it.map(|x| x.d()).cmp(rest.iter().map(|x| x.d())), model().cmp(without.iter().copied()));
        }
        6 => same!("is_sorted_by_key", (it.clone().is_sorted_by_key(|x| x.d()), it.is_sorted_by_key(|x| key(x.d()))), (true, model().is_sorted_by_key(key))),
        7 => {
            let (a, b): (Vec<u32>, Vec<usize>) = it.map(|x| (x.d(), key(x.d()))).unzip();
            same!("unzip", (a, b), model().map(|x| (x, key(x))).unzip::<u32, usize, Vec<_>, Vec<_>>());
        }
        8 => same!("sum", it.map(|x| x.d() as u64).sum::<u64>(), model().map(|x| x as u64).sum::<u64>()),
        9 => same!("scan", it.scan(0u64, |a, x| { *a += x.d() as u64; Some(*a) }).collect::<Vec<_>>(), model().scan(0u64, |a, x| { *a += x as u64; Some(*a) }).collect::<Vec<_>>()),
        10 => same!("flat_map", ds(it.clone().flat_map(|_| it.clone()).collect::<Vec<T>>()), model().flat_map(|_| model()).collect::<Vec<_>>()),
        11 => {
            let mut m = model();
            same!("take_while", ds(it.by_ref().take_while(|x| x.d() < t).collect::<Vec<T>>()), m.by_ref().take_while(|x| *x < t).collect::<Vec<_>>());
            same!("rest of take_while", ds(it.collect::<Vec<T>>()), m.collect::<Vec<_>>());
        }
        12 => same!("skip_while", ds(it.skip_while(|x| x.d() < t).collect::<Vec<T>>()), model().skip_while(|x| *x < t).collect::<Vec<_>>()),
        13 => {
            let mut m = model();
            same!("map_while", it.by_ref().map_while(|x| if x.d() < t { Some(x.d()) } else { None }).collect::<Vec<_>>(), m.by_ref().map_while(|x| if x < t { Some(x) } else { None }).collect::<Vec<_>>());
            same!("rest of map_while", ds(it.collect::<Vec<T>>()), m.collect::<Vec<_>>());
        }
        14 => same!("filter_map", it.filter_map(|x| if key(x.d()) == 0 { Some(x.d()) } else { None }).rev().collect::<Vec<_>>(), model().filter(|x| key(*x) == 0).rev().collect::<Vec<_>>()),
        15 => {
            let mut m = model();
            same!("find_map", it.find_map(|x| if x.d() >= t { Some(x.d()) } else { None }), m.find(|x| *x >= t));
            same!("rest of find_map", ds(it.collect::<Vec<T>>()), m.collect::<Vec<_>>());
        }
        16 => {
            let mut seen = Vec::new();
            let r = it.try_for_each(|x| { seen.push(x.d()); if x.d() == t { Err(x.d()) } else { Ok(()) } });
            let n = model().position(|x| x == t);
            same!("try_for_each", (r.err(), seen), (n.map(|n| mv[n]), mv[..n.map_or(mv.len(), |n| n + 1)].to_vec()));
            same!("rest of try_for_each", ds(it.collect::<Vec<T>>()), mv[n.map_or(mv.len(), |n| n + 1)..].to_vec());
        }
        17 => {
            let mut m = model();
            let mut p = it.peekable();
            let mut q = m.by_ref().peekable();
            same!("next_if", p.next_if(|x| x.d() < t).map(|x| x.d()), q.next_if(|x| *x < t));
            same!("peekable hint", p.size_hint(), q.size_hint());
            same!("peekable last", p.last().map(|x| x.d()), q.last());
        }
        18 => same!("chunks through take", {
            let mut v = Vec::new();
            loop {
                let c: Vec<u32> = it.by_ref().take(key(t) + 1).map(|x| x.d()).collect();
                if c.is_empty() { break v; }
                v.push(c);
            }
        }, mv.chunks(key(t) + 1).map(|x| x.to_vec()).collect::<Vec<_>>()),
        19 => {
            // the halves of a zip stop where the shorter does
            let n = mv.len() / 2;
            same!("zip with a shorter one", it.by_ref().zip(0..n).map(|x| (x.0.d(), x.1)).collect::<Vec<_>>(), model().zip(0..n).collect::<Vec<_>>());
        }
        20 => same!("step_by and rev", ds(it.step_by(key(t) + 1).rev().collect::<Vec<T>>()), model().step_by(key(t) + 1).rev().collect::<Vec<_>>()),
        21 => same!("skip and nth", it.skip(key(t)).nth(1).map(|x| x.d()), model().skip(key(t)).nth(1)),
        22 => same!("chain back", ds(it.clone().chain(it).rev().collect::<Vec<T>>()), model().chain(model()).rev().collect::<Vec<_>>()),
        // by the enum's own order
        23 => same!("max", it.max().map(|x| x.d()), model().max_by_key(|x| own_order(*x))),
        24 => same!("min", it.min().map(|x| x.d()), model().min_by_key(|x| own_order(*x))),
        25 => {
            let mut up: Vec<u32> = mv.to_vec();
            up.sort_by_key(|x| own_order(*x));
            let sorted = up == mv;
            let rest: Vec<T> = up.iter().filter_map(|x| T::from_d(*x)).collect();
            same!("is_sorted", it.clone().is_sorted(), sorted);
            same!("cmp", it.clone().cmp(rest.iter().copied()), model().map(own_order).cmp(up.iter().copied().map(own_order)));
            same!("le", it.le(rest.iter().copied()), model().map(own_order).le(up.iter().copied().map(own_order)));
        }
        _ => {
            let b: Box<dyn DoubleEndedIterator<Item = T>> = Box::new(it);
            same!("boxed", ds(b.rev().collect::<Vec<T>>()), model().rev().collect::<Vec<_>>());
        }
    }
    Ok(())
}

fn pick(v: &[u32], i: u16) -> Option<u32> {
    if v.is_empty() {
        None
    } else {
        Some(v[i as usize % v.len()])
    }
}

pub fn run<T: Subject>(c: &IterCase, cov: &mut Cov) -> R {
    no_panic("iteration", || run_inner::<T>(c, cov))?
}

fn run_inner<T: Subject>(c: &IterCase, cov: &mut Cov) -> R {
    let (mut set, model) = set_of::<T>(&c.set);
    let mut m: M = model.iter().copied().collect();
    let full = m.len();
    let mut it = if c.into { set.into_iter() } else { set.iter() };
    let mut later: Vec<(EnumSetIter<T>, M, Drain)> = Vec::new();
    let (mut front, mut back) = (false, false);
    macro_rules! same {
        ($i:expr, $op:expr, $got:expr, $exp:expr) => {{
            let (g, e) = ($got, $exp);
            ensure!(g == e, "set {}, step {} {:?}: got {:?}, expected {:?} (left {:?})", show(&model), $i, $op, g, e, m);
        }};
    }
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            IterOp::Next => {
                front = true;
                same!(i, op, it.next().map(|x| x.d()), m.pop_front())
            }
            IterOp::NextBack => {
                back = true;
                same!(i, op, it.next_back().map(|x| x.d()), m.pop_back())
            }
            IterOp::Nth(k) => {
                front = true;
                let k = *k as usize;
                let e = m.get(k).copied();
                for _ in 0..=k {
                    m.pop_front();
                }
                same!(i, op, it.nth(k).map(|x| x.d()), e)
            }
            IterOp::NthBack(k) => {
                back = true;
                let k = *k as usize;
                let e = m.len().checked_sub(k + 1).and_then(|x| m.get(x).copied());
                for _ in 0..=k {
                    m.pop_back();
                }
                same!(i, op, it.nth_back(k).map(|x| x.d()), e)
            }
            IterOp::Hint => {}
            IterOp::Clone(d) => {
                cov.label("clone");
                drain(it.clone(), &m, *d, cov).map_err(|e| format!("set {}, step {} clone: {}", show(&model), i, e))?
            }
            IterOp::Swap(d) => {
                cov.label("clone");
                let cl = it.clone();
                later.push((std::mem::replace(&mut it, cl), m.clone(), *d));
            }
            IterOp::ByRefTake(k) => {
                front = true;
                let k = *k as usize;
                let e: Vec<u32> = (0..k).filter_map(|_| m.pop_front()).collect();
                same!(i, op, ds(it.by_ref().take(k).collect::<Vec<T>>()), e)
            }
            IterOp::ByRefRevTake(k) => {
                back = true;
                let k = *k as usize;
                let e: Vec<u32> = (0..k).filter_map(|_| m.pop_back()).collect();
                same!(i, op, ds(it.by_ref().rev().take(k).collect::<Vec<T>>()), e)
            }
            IterOp::Find(x) => {
                let t = pick(&m.iter().copied().collect::<Vec<_>>(), *x);
                let mut e = None;
                while let Some(y) = m.pop_front() {
                    if Some(y) == t {
                        e = Some(y);
                        break;
                    }
                }
                same!(i, op, it.find(|y| Some(y.d()) == t).map(|y| y.d()), e)
            }
            IterOp::RFind(x) => {
                let t = pick(&m.iter().copied().collect::<Vec<_>>(), *x);
                let mut e = None;
                while let Some(y) = m.pop_back() {
                    if Some(y) == t {
                        e = Some(y);
                        break;
                    }
                }
                same!(i, op, it.rfind(|y| Some(y.d()) == t).map(|y| y.d()), e)
            }
            IterOp::Position(x) => {
                let t = pick(&m.iter().copied().collect::<Vec<_>>(), *x);
                let e = m.iter().position(|y| Some(*y) == t);
                let n = e.map_or(m.len(), |p| p + 1);
                m.drain(..n);
                same!(i, op, it.position(|y| Some(y.d()) == t), e)
            }
            IterOp::All(x) => {
                let t = pick(&m.iter().copied().collect::<Vec<_>>(), *x);
                let e = t.is_none();
                let n = m.iter().position(|y| Some(*y) == t).map_or(m.len(), |p| p + 1);
                m.drain(..n);
                same!(i, op, it.all(|y| Some(y.d()) != t), e)
            }
            IterOp::Any(x) => {
                let t = pick(&m.iter().copied().collect::<Vec<_>>(), *x);
                let e = t.is_some();
                let n = m.iter().position(|y| Some(*y) == t).map_or(m.len(), |p| p + 1);
                m.drain(..n);
                same!(i, op, it.any(|y| Some(y.d()) == t), e)
            }
            IterOp::TryFold(k) => {
                front = true;
                let n = (*k as usize + 1).min(m.len());
                let e: Vec<u32> = m.drain(..n).collect();
                let mut got = Vec::new();
                let r = it.try_fold(0usize, |a, x| {
                    got.push(x.d());
                    if a == *k as usize { Err(a) } else { Ok(a + 1) }
                });
                same!(i, op, (got, r), (e, if n > *k as usize { Err(*k as usize) } else { Ok(n) }))
            }
            IterOp::TryRFold(k) => {
                back = true;
                let n = (*k as usize + 1).min(m.len());
                let e: Vec<u32> = m.drain(m.len() - n..).rev().collect();
                let mut got = Vec::new();
                let r = it.try_rfold(0usize, |a, x| {
                    got.push(x.d());
                    if a == *k as usize { Err(a) } else { Ok(a + 1) }
                });
                same!(i, op, (got, r), (e, if n > *k as usize { Err(*k as usize) } else { Ok(n) }))
            }
            IterOp::Mutate(x) => {
                // the iterator is a snapshot
                if let Some(v) = var::<T>(*x) {
                    if !set.insert(v) {
                        set.remove(v);
                    }
                    cov.label("set changed while iterating");
                }
            }
        }
        same!(i, op, (it.size_hint(), it.len()), ((m.len(), Some(m.len())), m.len()));
    }
    if front && back {
        cov.label("both ends");
    }
    if m.is_empty() {
        cov.label("exhausted");
        // fused at both ends
        for k in 0..2 {
            same!(k, "exhausted", it.next().map(|x| x.d()), None);
            same!(k, "exhausted", it.next_back().map(|x| x.d()), None);
            same!(k, "exhausted", it.size_hint(), (0, Some(0)));
        }
    }
    drain(it, &m, c.end, cov).map_err(|e| format!("set {}, end: {}", show(&model), e))?;
    for (it, m, d) in later {
        same!(0, "original of a clone", it.size_hint(), (m.len(), Some(m.len())));
        drain(it, &m, d, cov).map_err(|e| format!("set {}, original of a clone: {}", show(&model), e))?;
    }
    cov.nontrivial = full >= 2 && (front || back);
    Ok(())
}
