//! Routes: different ways to obtain a set with given members.
use crate::*;

/// A set with these members by this route; where the route itself is broken, which is for C12 and
/// the properties of its parts to say, by plain insertion.
pub fn checked<T: Subject>(m: &Model, r: Route) -> EnumSet<T> {
    match caught(|| route::<T>(m, r)) {
        Some(s) if members(&s) == *m => s,
        _ => canon(m),
    }
}

pub fn route<T: Subject>(m: &Model, r: Route) -> EnumSet<T> {
    let all = all_model::<T>();
    let rest: Model = all.difference(m).copied().collect();
    let vs = |m: &Model| m.iter().map(|x| T::from_d(*x).unwrap()).collect::<Vec<T>>();
    let words = |extra: usize| {
        let mut w = model_words(m);
        let n = w.len() + extra;
        w.resize(n, 0);
        w
    };
    // garbage in bits that are no variants
    let dirty = |seed: u64| {
        let mut w = words(seed as usize % 3);
        let need = T::INFO.words();
        if w.len() < need {
            w.resize(need, 0);
        }
        let mut s = seed | 1;
        for (i, x) in w.iter_mut().enumerate() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *x |= s & !T::INFO.valid_word(i);
        }
        w
    };
    match r {
        Route::Insert => canon(m),
        Route::InsertRev => {
            let mut s = EnumSet::empty();
            for v in vs(m).into_iter().rev() {
                s.insert(v);
                s.insert(v);
            }
            s
        }
        Route::CollectShuffled(x) => {
            let mut v = vs(m);
            v.extend(vs(m));
            shuffled(v, x).into_iter().collect()
        }
        Route::Complement => !canon::<T>(&rest),
        Route::DoubleComplement => canon::<T>(m).complement().complement(),
        Route::UnionHalves(x) => {
            let (mut a, mut b) = (EnumSet::new(), EnumSet::new());
            for (i, v) in vs(m).into_iter().enumerate() {
                if x >> (i % 64) & 1 == 1 {
                    a |= v;
                } else {
                    b |= v;
                }
            }
            a | b
        }
        Route::RemoveFromAll => {
            let mut s = EnumSet::all();
            for v in vs(&rest) {
                s.remove(v);
            }
            s
        }
        Route::XorWithAll => EnumSet::all() ^ canon::<T>(&rest),
        Route::Intersect(x) => {
            // two supersets with nothing else in common
            let (mut a, mut b) = (canon::<T>(m), canon::<T>(m));
            for (i, v) in vs(&rest).into_iter().enumerate() {
                if x >> (i % 64) & 1 == 1 {
                    a |= v;
                } else {
                    b |= v;
                }
            }
            a & b
        }
        Route::Words(k) => match k % 4 {
            0 => EnumSet::from_slice(&words(0)),
            1 => EnumSet::from_slice(&words(k as usize % 5)),
            2 => EnumSet::try_from_slice(&words(1)).unwrap(),
            _ => {
                let w = words(0);
                if w.len() <= 4 {
                    let mut a = [0u64; 4];
                    a[..w.len()].copy_from_slice(&w);
                    EnumSet::from_array(a)
                } else {
                    EnumSet::from_slice(&w)
                }
            }
        },
        Route::WordsTruncated(x) => {
            let w = dirty(x);
            if w.len() <= 5 {
                let mut a = [0u64; 5];
                a[..w.len()].copy_from_slice(&w);
                EnumSet::from_array_truncated(a)
            } else {
                EnumSet::from_slice_truncated(&w)
            }
        }
        Route::SliceTruncated(x) => EnumSet::from_slice_truncated(&dirty(x)),
        Route::Int => match m.last().copied().unwrap_or(0) {
            x if x < 8 => EnumSet::from_u8(model_words(m).first().copied().unwrap_or(0) as u8),
            x if x < 16 => EnumSet::from_u16(words(0)[0] as u16),
            x if x < 32 => EnumSet::from_u32(words(0)[0] as u32),
            x if x < 64 => EnumSet::from_u64(words(0)[0]),
            x if x < 128 => EnumSet::from_u128(words(0)[0] as u128 | (words(0)[1] as u128) << 64),
            _ => canon(m),
        },
        Route::IntTruncated(x) => {
            let w = dirty(x);
            let lo = w.first().copied().unwrap_or(0);
            match m.last().copied().unwrap_or(0) {
                x if x < 32 && T::INFO.width() <= 32 => EnumSet::from_u32_truncated(lo as u32),
                x if x < 64 => EnumSet::from_u64_truncated(lo),
                x if x < 128 => {
                    EnumSet::from_u128_truncated(lo as u128 | (w.get(1).copied().unwrap_or(0) as u128) << 64)
                }
                _ => canon(m),
            }
        }
        Route::SumOnly => vs(m).into_iter().map(EnumSet::only).sum(),
        Route::ChurnThenSame(x) => {
            let mut s = EnumSet::new();
            let mut k = x | 1;
            for v in shuffled(vs(&all), x) {
                k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if k >> 60 & 3 != 0 {
                    s.insert(v);
                }
            }
            for v in vs(&rest) {
                s.remove(v);
            }
            s.extend(vs(m));
            s
        }
        Route::ViaIter => {
            let s: EnumSet<T> = canon(m);
            s.iter().rev().collect()
        }
        Route::Difference(x) => {
            let mut s = EnumSet::<T>::all();
            let (mut a, mut b) = (EnumSet::new(), EnumSet::new());
            for (i, v) in vs(&rest).into_iter().enumerate() {
                if x >> (i % 64) & 1 == 1 {
                    a |= v;
                } else {
                    b |= v;
                }
            }
            s -= a;
            s.difference(b)
        }
        #[cfg(feature = "formats")]
        Route::Serde => {
            let s: EnumSet<T> = canon(m);
            serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap()
        }
        #[cfg(not(feature = "formats"))]
        Route::Serde => canon(m),
    }
}
