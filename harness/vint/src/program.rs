//! C12 (and C22, C23 under an interpreter): programs over the whole API on a few sets. After every
//! step the set written must be what the model says, by every observation there is.
use crate::rec::*;
use crate::*;

pub const SLOTS: usize = 4;

/// Everything one can see of a set, as far as it depends on no target or hasher.
#[derive(PartialEq, Debug)]
pub struct Obs {
    len: usize,
    empty: bool,
    iter: Vec<u32>,
    rev: Vec<u32>,
    words: Vec<u64>,
    arr: [u64; 3],
    tarr: Option<[u64; 2]>,
    ints: (Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>),
    trunc: (u8, u16, u32, u64, u128),
    debug: String,
    display: String,
    ser: Result<Tok, String>,
}
pub fn observe<T: Subject>(s: &EnumSet<T>) -> Obs {
    Obs {
        len: s.len(),
        empty: s.is_empty(),
        iter: s.iter().map(|x| x.d()).collect(),
        rev: s.iter().rev().map(|x| x.d()).collect(),
        words: s.to_vec(),
        arr: s.as_array_truncated(),
        tarr: s.try_as_array(),
        ints: (s.try_as_u8(), s.try_as_u16(), s.try_as_u32(), s.try_as_u64(), s.try_as_u128()),
        trunc: (s.as_u8_truncated(), s.as_u16_truncated(), s.as_u32_truncated(), s.as_u64_truncated(), s.as_u128_truncated()),
        debug: format!("{:?}", s),
        display: format!("{}", s),
        ser: to_tok(s, true).map_err(|x| x.0),
    }
}

/// All observations of `s` agree with the model and with a set made by inserting the members.
pub fn check_set<T: Subject>(what: &dyn Fn() -> String, s: &EnumSet<T>, m: &Model, digest: &mut u64) -> R {
    if cfg!(feature = "light") && (*digest ^ m.len() as u64) % 8 != 0 {
        return check_light(what, s, m, digest);
    }
    let got = members(s);
    ensure!(got == *m, "{}: members {}, expected {}", what(), show(&got), show(m));
    let c: EnumSet<T> = canon(m);
    ensure!(*s == c && c == *s && !(*s != c), "{}: {} is not equal to the set of its members", what(), show(m));
    ensure!(hash_of(s) == hash_of(&c), "{}: {} hashes unlike the set of its members", what(), show(m));
    ensure!(s.cmp(&c) == std::cmp::Ordering::Equal, "{}: {} does not compare equal to the set of its members", what(), show(m));
    let (a, b) = (observe(s), observe(&c));
    ensure!(a == b, "{}: {} looks like {:?}, a set with the same members like {:?}", what(), show(m), a, b);
    let v: Vec<u32> = m.iter().copied().collect();
    ensure!(a.iter == v, "{}: iterates as {:?}, expected {:?}", what(), a.iter, v);
    ensure!(a.len == v.len() && a.empty == v.is_empty(), "{}: {} has len {}, is_empty {}", what(), show(m), a.len, a.empty);
    let mut w = model_words(m);
    w.resize(a.words.len().max(w.len()), 0);
    ensure!(a.words == w, "{}: words {:x?}, expected {:x?}", what(), a.words, w);
    ensure!(s.is_subset(EnumSet::all()), "{}: {} is not within the full set", what(), show(m));
    let n = !*s;
    ensure!(n.len() + v.len() == T::INFO.n(), "{}: the complement of {} has {} members", what(), show(m), n.len());
    // fold everything into the digest, so that other targets can be compared
    let t = format!("{:?}", a);
    for b in t.bytes() {
        *digest = (*digest ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Ok(())
}

/// The same with fewer observations, for runs under an interpreter.
fn check_light<T: Subject>(what: &dyn Fn() -> String, s: &EnumSet<T>, m: &Model, digest: &mut u64) -> R {
    let mut put = |x: u64| *digest = (*digest ^ x).wrapping_mul(0x100000001b3).rotate_left(29);
    let mut it = s.iter();
    let mut n = 0;
    for d in m {
        let x = it.next().map(|x| x.d());
        ensure!(x == Some(*d), "{}: iterates to {:?}, expected {} in {}", what(), x, d, show(m));
        put(*d as u64);
        n += 1;
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "{}: iterates beyond {}", what(), show(m));
    ensure!(s.len() == n && s.is_empty() == (n == 0), "{}: {} has len {}, is_empty {}", what(), show(m), s.len(), s.is_empty());
    ensure!(n == 0 || s.iter().next_back().map(|x| x.d()) == m.last().copied(), "{}: wrong last of {}", what(), show(m));
    let mut w = model_words(m);
    let words = s.to_vec();
    w.resize(words.len().max(w.len()), 0);
    ensure!(words == w, "{}: words {:x?}, expected {:x?}", what(), words, w);
    words.iter().for_each(|x| put(*x));
    // what depends on the width of pointers and the order of bytes
    let (lo, hi) = (w[0], w.get(1).copied().unwrap_or(0));
    let low = lo as usize;
    let fits = low as u64 == lo && w[1..].iter().all(|x| *x == 0);
    ensure!(s.as_usize_truncated() == low, "{}: as_usize_truncated of {} is {:#x}", what(), show(m), s.as_usize_truncated());
    ensure!(s.try_as_usize() == fits.then_some(low), "{}: try_as_usize of {} is {:x?}", what(), show(m), s.try_as_usize());
    let t = EnumSet::<T>::from_usize_truncated(low);
    ensure!(
        t.len() as u32 == low.count_ones() && t.is_subset(*s) && t.as_usize_truncated() == low,
        "{}: from_usize_truncated({:#x}) is {:?}",
        what(),
        low,
        t
    );
    ensure!(EnumSet::<T>::try_from_usize(low) == Some(t), "{}: try_from_usize({:#x}) is {:?}", what(), low, EnumSet::<T>::try_from_usize(low));
    let low = lo as u128 | (hi as u128) << 64;
    ensure!(s.as_u128_truncated() == low, "{}: as_u128_truncated of {} is {:#x}", what(), show(m), s.as_u128_truncated());
    let t = EnumSet::<T>::from_u128_truncated(low);
    ensure!(t.is_subset(*s) && t.len() as u32 == low.count_ones(), "{}: from_u128_truncated({:#x}) is {:?}", what(), low, t);
    put(low as u64);
    put(s.try_as_u32().map_or(!0, |x| x as u64));
    put(s.as_u16_truncated() as u64);
    Ok(())
}

/// The serialized form with these bits set, which may include unknown ones, where the
/// representation has a place for them.
pub fn tok_for(info: &TypeInfo, bits: &Model, extra_words: usize) -> (Tok, Model) {
    match info.ser {
        SerKind::Int(w) => {
            let b: Model = bits.iter().copied().filter(|x| *x < w).collect();
            let n = b.iter().fold(0u128, |a, x| a | 1 << x);
            let t = match w {
                8 => Tok::U8(n as u8),
                16 => Tok::U16(n as u16),
                32 => Tok::U32(n as u32),
                64 => Tok::U64(n as u64),
                _ => Tok::U128(n),
            };
            (t, b)
        }
        SerKind::Array => {
            let mut w = model_words(bits);
            w.resize(w.len() + extra_words, 0);
            (Tok::Seq(Some(w.len()), w.into_iter().map(Tok::U64).collect()), bits.clone())
        }
        SerKind::List | SerKind::Map => {
            let b: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
            let name = |d: &u32| Tok::Str(info.names[info.discr.binary_search(d).unwrap()].to_string());
            if info.ser == SerKind::List {
                (Tok::Seq(Some(b.len()), b.iter().rev().map(name).collect()), b)
            } else {
                (Tok::Map(Some(b.len()), b.iter().rev().map(|d| (name(d), Tok::Bool(true))).collect()), b)
            }
        }
    }
}

pub fn run<T: Subject>(p: &Program, cov: &mut Cov, digest: &mut u64) -> R {
    no_panic("program", || inner::<T>(p, cov, digest))?
}

fn inner<T: Subject>(p: &Program, cov: &mut Cov, digest: &mut u64) -> R {
    let info = T::INFO;
    let mut sets: [EnumSet<T>; SLOTS] = [EnumSet::new(); SLOTS];
    let mut models: [Model; SLOTS] = Default::default();
    let mut grown = 0;
    let mut kinds = std::collections::BTreeSet::new();
    let ix = |x: u8| x as usize % SLOTS;
    for (i, op) in p.ops.iter().enumerate() {
        kinds.insert(std::mem::discriminant(op).clone().hash_kind());
        let what = || format!("step {} {:?}", i, op);
        let (k, s, m): (usize, EnumSet<T>, Model) = match op {
            ProgOp::New(k) => (ix(*k), if k & 0x80 == 0 { EnumSet::new() } else { Default::default() }, Model::new()),
            ProgOp::All(k) => (ix(*k), EnumSet::all(), all_model::<T>()),
            ProgOp::Only(k, v) => match var::<T>(*v) {
                Some(v) => (ix(*k), EnumSet::only(v), [v.d()].into_iter().collect()),
                None => continue,
            },
            ProgOp::Spec(k, s, r) => {
                let m = s.model(info.discr);
                (ix(*k), build::route::<T>(&m, *r), m)
            }
            ProgOp::Copy(k, j) => (ix(*k), sets[ix(*j)], models[ix(*j)].clone()),
            ProgOp::Mut(k, o) => {
                let k = ix(*k);
                let (mut s, mut m) = (sets[k], models[k].clone());
                mutate::apply(&mut s, &mut m, o, &mut Cov::default()).map_err(|e| format!("{}: {}", what(), e))?;
                (k, s, m)
            }
            ProgOp::Alg(k, a, b, o) => {
                let (a, b) = (ix(*a), ix(*b));
                let (x, y) = (sets[a], sets[b]);
                let (mx, my) = (&models[a], &models[b]);
                let (s, m) = match o % 8 {
                    0 => (x | y, mx.union(my).copied().collect()),
                    1 => (x & y, mx.intersection(my).copied().collect()),
                    2 => (x - y, mx.difference(my).copied().collect()),
                    3 => (x ^ y, mx.symmetric_difference(my).copied().collect()),
                    4 => (x.union(y), mx.union(my).copied().collect()),
                    5 => (x.intersection(y), mx.intersection(my).copied().collect()),
                    6 => (x.difference(y), mx.difference(my).copied().collect()),
                    _ => (x.symmetrical_difference(y), mx.symmetric_difference(my).copied().collect()),
                };
                ensure!(x.is_subset(y) == mx.is_subset(my) && x.is_disjoint(y) == mx.is_disjoint(my), "{}: queries", what());
                ensure!((x == y) == (mx == my), "{}: equality of the operands", what());
                (ix(*k), s, m)
            }
            ProgOp::Not(k, a) => {
                let a = ix(*a);
                (ix(*k), if k & 0x80 == 0 { !sets[a] } else { sets[a].complement() }, compl::<T>(&models[a]))
            }
            ProgOp::VarOp(k, a, v, o) => match var::<T>(*v) {
                Some(v) => {
                    let (x, mx) = (sets[ix(*a)], &models[ix(*a)]);
                    let mv: Model = [v.d()].into_iter().collect();
                    let (s, m) = match o % 4 {
                        0 => (x | v, mx.union(&mv).copied().collect()),
                        1 => (x & v, mx.intersection(&mv).copied().collect()),
                        2 => (x - v, mx.difference(&mv).copied().collect()),
                        _ => (x ^ v, mx.symmetric_difference(&mv).copied().collect()),
                    };
                    (ix(*k), s, m)
                }
                None => continue,
            },
            ProgOp::FromInt(k, w, c) => {
                macro_rules! imp {
                    ($t:ident, $from:ident $try:ident $trunc:ident) => {{
                        // the history is the same on all targets
                        let width = if stringify!($t) == "usize" { 32 } else { $t::BITS };
                        let mut bits = c.bits.bits(info.discr, width);
                        if c.clean {
                            bits.retain(|x| info.has(*x));
                        }
                        let x = bits.iter().fold(0 as $t, |a, b| a | (1 as $t) << b);
                        let valid: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
                        let ok = valid == bits;
                        match c.len % 3 {
                            0 => (EnumSet::$trunc(x), valid),
                            1 => match EnumSet::$try(x) {
                                Some(s) => {
                                    ensure!(ok, "{}: {:#x} was accepted", what(), x);
                                    (s, bits)
                                }
                                None => {
                                    ensure!(!ok, "{}: {:#x} was rejected", what(), x);
                                    continue;
                                }
                            },
                            _ => match caught(|| EnumSet::$from(x)) {
                                Some(s) => {
                                    ensure!(ok, "{}: {:#x} was accepted", what(), x);
                                    (s, bits)
                                }
                                None => {
                                    ensure!(!ok, "{}: {:#x} made it panic", what(), x);
                                    cov.label("failed conversion");
                                    continue;
                                }
                            },
                        }
                    }};
                }
                let (s, m): (EnumSet<T>, Model) = match w % 6 {
                    0 => imp!(u8, from_u8 try_from_u8 from_u8_truncated),
                    1 => imp!(u16, from_u16 try_from_u16 from_u16_truncated),
                    2 => imp!(u32, from_u32 try_from_u32 from_u32_truncated),
                    3 => imp!(u64, from_u64 try_from_u64 from_u64_truncated),
                    4 => imp!(u128, from_u128 try_from_u128 from_u128_truncated),
                    _ => imp!(usize, from_usize try_from_usize from_usize_truncated),
                };
                (ix(*k), s, m)
            }
            ProgOp::FromWords(k, c, arr) => {
                let len = arrays::pick_len(info.words(), 2, c.len);
                let mut bits = c.bits.bits(info.discr, len as u32 * 64);
                if c.clean {
                    bits.retain(|x| info.has(*x));
                }
                let valid: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
                let ok = valid == bits;
                let mut w = model_words(&bits);
                w.resize(len, 0);
                let four: Option<[u64; 4]> = if *arr && len <= 4 {
                    let mut a = [0; 4];
                    a[..len].copy_from_slice(&w);
                    Some(a)
                } else {
                    None
                };
                let r: Option<EnumSet<T>> = match c.len / 10 % 3 {
                    0 => {
                        let s = match four {
                            Some(a) => EnumSet::from_array_truncated(a),
                            None => EnumSet::from_slice_truncated(&w),
                        };
                        check_set(&what, &s, &valid, digest)?;
                        Some(s)
                    }
                    1 => match four {
                        Some(a) => EnumSet::try_from_array(a),
                        None => EnumSet::try_from_slice(&w),
                    },
                    _ => caught(|| match four {
                        Some(a) => EnumSet::from_array(a),
                        None => EnumSet::from_slice(&w),
                    }),
                };
                if c.len / 10 % 3 != 0 {
                    ensure!(r.is_some() == ok, "{}: {:x?} was {}", what(), w, if ok { "refused" } else { "accepted" });
                }
                match r {
                    Some(s) => (ix(*k), s, valid),
                    None => {
                        cov.label("failed conversion");
                        continue;
                    }
                }
            }
            ProgOp::Round(k, j, how) => {
                let (s, m) = (sets[ix(*j)], models[ix(*j)].clone());
                let small = m.iter().all(|x| *x < 128);
                let r: EnumSet<T> = match how % 8 {
                    0 => EnumSet::from_slice(&s.to_vec()),
                    1 => {
                        let mut b = vec![!0; info.words() + 2];
                        s.copy_into_slice(&mut b);
                        EnumSet::from_slice(&b)
                    }
                    2 if small => EnumSet::from_u128(s.as_u128()),
                    3 if m.iter().all(|x| *x < 64) => EnumSet::from_u64(s.as_u64()),
                    4 if small => EnumSet::from_array(s.as_array::<2>()),
                    5 if small => EnumSet::from_array_truncated(s.as_array::<7>()),
                    6 => {
                        let t = to_tok(&s, true).map_err(|e| format!("{}: {}", what(), e))?;
                        from_tok(&t, Quirks { human: true, hint: k / 4, by_index: false }).map_err(|e| format!("{}: {:?}: {}", what(), t, e))?
                    }
                    7 => {
                        let t = to_tok(&s, false).map_err(|e| format!("{}: {}", what(), e))?;
                        from_tok(&t, Quirks { human: false, hint: k / 4, by_index: true }).map_err(|e| format!("{}: {:?}: {}", what(), t, e))?
                    }
                    _ => {
                        // exports that may be refused
                        let a = caught(|| s.as_u8());
                        let b = caught(|| s.as_array::<1>());
                        ensure!(a.is_some() == m.iter().all(|x| *x < 8), "{}: as_u8", what());
                        ensure!(b.is_some() == m.iter().all(|x| *x < 64), "{}: as_array::<1>", what());
                        if b.is_none() {
                            cov.label("failed conversion");
                        }
                        s
                    }
                };
                (ix(*k), r, m)
            }
            ProgOp::IterPart(k, j, f, b) => {
                let (s, m) = (sets[ix(*j)], &models[ix(*j)]);
                let mut it = s.iter();
                let (f, b) = (*f as usize % (m.len() + 2), *b as usize % 9);
                let mut mm: std::collections::VecDeque<u32> = m.iter().copied().collect();
                for _ in 0..f {
                    it.next();
                    mm.pop_front();
                }
                for _ in 0..b {
                    it.next_back();
                    mm.pop_back();
                }
                ensure!(it.len() == mm.len(), "{}: {} left, expected {}", what(), it.len(), mm.len());
                (ix(*k), it.collect(), mm.into_iter().collect())
            }
            ProgOp::Filter(k, j, x) => {
                let (s, m) = (sets[ix(*j)], &models[ix(*j)]);
                let q = *x as u32 % 5 + 2;
                (ix(*k), s.into_iter().filter(|y| y.d() % q != 0).collect(), m.iter().copied().filter(|y| y % q != 0).collect())
            }
            ProgOp::Sum(k, a, b) => {
                let (a, b) = (ix(*a), ix(*b));
                let v = [sets[a], sets[b], sets[a]];
                let m: Model = models[a].union(&models[b]).copied().collect();
                (ix(*k), if k & 0x80 == 0 { v.iter().sum() } else { v.into_iter().collect() }, m)
            }
            ProgOp::Deser(k, bits, x) => {
                let bits = bits.bits(info.discr, (info.words() as u32 + 2) * 64);
                let (t, used) = tok_for(&info, &bits, *x as usize % 3);
                let valid: Model = used.iter().copied().filter(|x| info.has(*x)).collect();
                let q = Quirks { human: x & 0x80 == 0, hint: x / 3, by_index: false };
                match from_tok::<EnumSet<T>>(&t, q) {
                    Ok(s) => {
                        ensure!(!info.deny || valid == used, "{}: {:?} was accepted", what(), t);
                        (ix(*k), s, valid)
                    }
                    Err(e) => {
                        ensure!(info.deny && valid != used, "{}: {:?} was refused: {}", what(), t, e);
                        cov.label("failed conversion");
                        continue;
                    }
                }
            }
            ProgOp::Swap(a, b) => {
                let (a, b) = (ix(*a), ix(*b));
                sets.swap(a, b);
                models.swap(a, b);
                (a, sets[a], models[a].clone())
            }
            ProgOp::Observe(k) => (ix(*k), sets[ix(*k)], models[ix(*k)].clone()),
        };
        check_set(&what, &s, &m, digest)?;
        if m.len() >= 2 && m != models[k] {
            grown += 1;
        }
        sets[k] = s;
        models[k] = m;
    }
    for k in 0..SLOTS {
        check_set(&|| format!("set {} at the end", k), &sets[k], &models[k], digest)?;
        for j in 0..SLOTS {
            ensure!((sets[k] == sets[j]) == (models[k] == models[j]), "sets {} and {} at the end: equality", k, j);
        }
    }
    cov.nontrivial = grown >= 2 && kinds.len() >= 3;
    Ok(())
}

trait HashKind {
    fn hash_kind(&self) -> u64;
}
impl<X> HashKind for std::mem::Discriminant<X> {
    fn hash_kind(&self) -> u64 {
        hash_of(self)
    }
}
