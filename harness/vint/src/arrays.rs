//! C08: export to words, C09: import from words.
use crate::*;

fn expected_words(m: &Model, len: usize) -> Vec<u64> {
    let mut w = model_words(m);
    w.resize(len, 0);
    w
}

macro_rules! with_len {
    ($n:expr, $f:ident, $t:ty, $($a:expr),*) => {
        match $n {
            0 => $f::<$t, 0>($($a),*),
            1 => $f::<$t, 1>($($a),*),
            2 => $f::<$t, 2>($($a),*),
            3 => $f::<$t, 3>($($a),*),
            4 => $f::<$t, 4>($($a),*),
            5 => $f::<$t, 5>($($a),*),
            6 => $f::<$t, 6>($($a),*),
            7 => $f::<$t, 7>($($a),*),
            12 => $f::<$t, 12>($($a),*),
            16 => $f::<$t, 16>($($a),*),
            17 => $f::<$t, 17>($($a),*),
            101 => $f::<$t, 101>($($a),*),
            102 => $f::<$t, 102>($($a),*),
            _ => Ok(()),
        }
    };
}

/// A length around the number of words of the members or of the type.
pub fn pick_len(words: usize, mwords: usize, sel: u8) -> usize {
    match sel % 12 {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => words,
        4 => words + 1,
        5 => words.saturating_sub(1),
        6 => mwords,
        7 => mwords.saturating_sub(1),
        8 => mwords + 1,
        // many more than needed
        9 => words + 4 + sel as usize / 12,
        10 => [8, 9, 12, 12, 12, 16, 16, 17, 17, 31, 32, 33, 48, 64, 65, 100, 101, 102, 128, 129, 192, 256][sel as usize / 12],
        _ => words + 3,
    }
}

fn arr_export<T: Subject, const O: usize>(s: &EnumSet<T>, m: &Model, fits: bool) -> R {
    let low = expected_words(m, O);
    let r = no_panic("try_as_array", || s.try_as_array::<O>())?;
    ensure!(r.map(|x| x.to_vec()) == if fits { Some(low.clone()) } else { None }, "{}: try_as_array::<{}> gave {:x?}, expected {:x?}", show(m), O, r, if fits { Some(&low) } else { None });
    let r = no_panic("as_array_truncated", || s.as_array_truncated::<O>())?;
    ensure!(r.to_vec() == low, "{}: as_array_truncated::<{}> gave {:x?}, expected {:x?}", show(m), O, r, low);
    let r = caught(|| s.as_array::<O>());
    ensure!(r.map(|x| x.to_vec()) == if fits { Some(low.clone()) } else { None }, "{}: as_array::<{}> gave {:x?} (None: panic), low words {:x?}", show(m), O, r, low);
    Ok(())
}

pub fn export<T: Subject>(c: &ExportCase, cov: &mut Cov) -> R {
    let (s, m) = no_panic("building the set", || ints::export_set::<T>(c))?;
    let full = model_words(&m);
    let len = pick_len(T::INFO.words(), full.len(), c.len);
    cov.nontrivial = m.len() >= 2 && (full.len() > 1 || len != full.len());
    for len in [len, c.len as usize % 6] {
        let fits = full.len() <= len;
        cov.label(if fits { "fits" } else { "too short" });
        if len > T::INFO.words() {
            cov.label("longer than needed");
        }
        let low = expected_words(&m, len);
        let stale = |i: usize| c.stale.rotate_left(i as u32 * 7) | 1 << (i % 64);
        // slices
        let mut buf: Vec<u64> = (0..len).map(stale).collect();
        let r = no_panic("try_copy_into_slice", || s.try_copy_into_slice(&mut buf))?;
        ensure!(r.is_some() == fits, "{}: try_copy_into_slice into {} words gave {:?}", show(&m), len, r);
        if fits {
            ensure!(buf == low, "{}: try_copy_into_slice wrote {:x?}, expected {:x?}", show(&m), buf, low);
        }
        let mut buf: Vec<u64> = (0..len).map(stale).collect();
        let r = caught(|| s.copy_into_slice(&mut buf));
        ensure!(r.is_some() == fits, "{}: copy_into_slice into {} words: {}", show(&m), len, if r.is_some() { "no panic" } else { "panic" });
        if fits {
            ensure!(buf == low, "{}: copy_into_slice wrote {:x?}, expected {:x?}", show(&m), buf, low);
        }
        // a window of a larger buffer: nothing outside it is touched
        let mut big: Vec<u64> = (0..len + 4).map(stale).collect();
        no_panic("copy_into_slice_truncated", || s.copy_into_slice_truncated(&mut big[2..2 + len]))?;
        ensure!(big[2..2 + len] == low[..], "{}: copy_into_slice_truncated wrote {:x?}, expected {:x?}", show(&m), &big[2..2 + len], low);
        for i in [0, 1, len + 2, len + 3] {
            ensure!(big[i] == stale(i), "{}: copy_into_slice_truncated wrote outside the slice", show(&m));
        }
        with_len!(len, arr_export, T, &s, &m, fits)?;
    }
    // the vector holds every member and nothing else
    let v = no_panic("to_vec", || s.to_vec())?;
    ensure!(v.len() >= full.len(), "{}: to_vec is {:x?}, too short", show(&m), v);
    // and is as long for every set of the enum, whatever its members
    let size = (std::mem::size_of::<EnumSet<T>>() + 7) / 8;
    ensure!(v.len() == size.max(1), "{}: to_vec has {} words, the set takes {} bytes in memory", show(&m), v.len(), std::mem::size_of::<EnumSet<T>>());
    ensure!(v == expected_words(&m, v.len()), "{}: to_vec is {:x?}", show(&m), v);
    Ok(())
}

fn arr_import<T: Subject, const O: usize>(w: &[u64], bits: &Model, valid: &Model) -> R {
    let mut a = [0u64; O];
    a.copy_from_slice(w);
    let ok = bits == valid;
    let r: Option<EnumSet<T>> = no_panic("try_from_array", || EnumSet::try_from_array(a))?;
    ensure!(r.is_some() == ok, "try_from_array({:x?}) is {}, valid: {}", w, if r.is_some() { "a set" } else { "none" }, ok);
    if let Some(s) = r {
        expect_at(format_args!("try_from_array({:x?})", w), &s, bits)?;
        ensure!(s == canon(bits), "try_from_array({:x?}) holds more than its members", w);
    }
    let r: Option<EnumSet<T>> = caught(|| EnumSet::from_array(a));
    ensure!(r.is_some() == ok, "from_array({:x?}): {}, valid: {}", w, if r.is_some() { "no panic" } else { "panic" }, ok);
    if let Some(s) = r {
        expect_at(format_args!("from_array({:x?})", w), &s, bits)?;
        let u: EnumSet<T> = no_panic("from_array_unchecked", || unsafe { EnumSet::from_array_unchecked(a) })?;
        ensure!(u == s && members(&u) == *bits, "from_array_unchecked({:x?}) differs from the checked form", w);
    }
    let s: EnumSet<T> = no_panic("from_array_truncated", || EnumSet::from_array_truncated(a))?;
    expect_at(format_args!("from_array_truncated({:x?})", w), &s, valid)?;
    ensure!(s == canon(valid), "from_array_truncated({:x?}) kept bits that are no variants", w);
    Ok(())
}

pub fn import<T: Subject>(c: &ImportCase, cov: &mut Cov) -> R {
    let info = T::INFO;
    let len = pick_len(info.words(), 2, c.len);
    for len in [len, c.len as usize / 10 % 7] {
        let mut bits = c.bits.bits(info.discr, len as u32 * 64);
        if c.clean {
            bits.retain(|x| info.has(*x));
        }
        let valid: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
        let ok = valid.len() == bits.len();
        let w = expected_words(&bits, len);
        if !bits.is_empty() {
            cov.label(if ok { "valid" } else { "invalid" });
            cov.nontrivial |= !valid.is_empty();
        }
        if len < info.words() {
            cov.label("shorter than the type");
        }
        if len > info.words() {
            cov.label("longer than the type");
            if !ok && valid.iter().count() > 0 && bits.iter().all(|x| *x >= info.words() as u32 * 64 || info.has(*x)) {
                cov.label("invalid only beyond the type");
            }
        }
        let r: Option<EnumSet<T>> = no_panic("try_from_slice", || EnumSet::try_from_slice(&w))?;
        ensure!(r.is_some() == ok, "try_from_slice({:x?}) is {}, valid: {}", w, if r.is_some() { "a set" } else { "none" }, ok);
        if let Some(s) = r {
            expect_at(format_args!("try_from_slice({:x?})", w), &s, &bits)?;
            ensure!(s == canon(&bits), "try_from_slice({:x?}) holds more than its members", w);
        }
        let r: Option<EnumSet<T>> = caught(|| EnumSet::from_slice(&w));
        ensure!(r.is_some() == ok, "from_slice({:x?}): {}, valid: {}", w, if r.is_some() { "no panic" } else { "panic" }, ok);
        if let Some(s) = r {
            expect_at(format_args!("from_slice({:x?})", w), &s, &bits)?;
            let u: EnumSet<T> = no_panic("from_slice_unchecked", || unsafe { EnumSet::from_slice_unchecked(&w) })?;
            ensure!(u == s && members(&u) == bits, "from_slice_unchecked({:x?}) differs from the checked form", w);
            // and back, through every form
            let v = no_panic("to_vec", || s.to_vec())?;
            let back: Option<EnumSet<T>> = no_panic("try_from_slice", || EnumSet::try_from_slice(&v))?;
            ensure!(back == Some(s), "try_from_slice(to_vec()) of {} is not the set", show(&bits));
            let mut buf = vec![!0u64; info.words() + 1];
            no_panic("copy_into_slice", || s.copy_into_slice(&mut buf))?;
            let back: EnumSet<T> = no_panic("from_slice", || EnumSet::from_slice(&buf))?;
            ensure!(back == s, "from_slice(copy_into_slice()) of {} is not the set", show(&bits));
            if info.words() <= 3 {
                let a = no_panic("as_array", || s.as_array::<3>())?;
                let back: EnumSet<T> = no_panic("from_array", || EnumSet::from_array(a))?;
                ensure!(back == s, "from_array(as_array()) of {} is not the set", show(&bits));
            }
        }
        let s: EnumSet<T> = no_panic("from_slice_truncated", || EnumSet::from_slice_truncated(&w))?;
        expect_at(format_args!("from_slice_truncated({:x?})", w), &s, &valid)?;
        ensure!(s == canon(&valid), "from_slice_truncated({:x?}) kept bits that are no variants", w);
        with_len!(len, arr_import, T, &w, &bits, &valid)?;
    }
    Ok(())
}
