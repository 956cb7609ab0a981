//! C06: export to integers, C07: import from integers.
use crate::*;

macro_rules! widths {
    ($m:ident) => {
        $m!(u8, as_u8 try_as_u8 as_u8_truncated from_u8 try_from_u8 from_u8_truncated from_u8_unchecked);
        $m!(u16, as_u16 try_as_u16 as_u16_truncated from_u16 try_from_u16 from_u16_truncated from_u16_unchecked);
        $m!(u32, as_u32 try_as_u32 as_u32_truncated from_u32 try_from_u32 from_u32_truncated from_u32_unchecked);
        $m!(u64, as_u64 try_as_u64 as_u64_truncated from_u64 try_from_u64 from_u64_truncated from_u64_unchecked);
        $m!(u128, as_u128 try_as_u128 as_u128_truncated from_u128 try_from_u128 from_u128_truncated from_u128_unchecked);
        $m!(usize, as_usize try_as_usize as_usize_truncated from_usize try_from_usize from_usize_truncated from_usize_unchecked);
    };
}

pub fn export_set<T: Subject>(c: &ExportCase) -> (EnumSet<T>, Model) {
    let mut m = c.set.model(T::INFO.discr);
    if let Some(b) = c.below {
        m.retain(|x| *x < b as u32);
    }
    let s = build::checked::<T>(&m, c.route);
    (s, m)
}

pub fn export<T: Subject>(c: &ExportCase, cov: &mut Cov) -> R {
    let (s, m) = no_panic("building the set", || export_set::<T>(c))?;
    cov.nontrivial = m.len() >= 2 || m.iter().any(|x| *x >= 64);
    macro_rules! check {
        ($t:ident, $as:ident $try:ident $trunc:ident $($rest:ident)*) => {{
            let fits = m.iter().all(|x| *x < $t::BITS);
            let low = m.iter().filter(|x| **x < $t::BITS).fold(0 as $t, |a, x| a | (1 as $t) << x);
            let r = no_panic(stringify!($try), || s.$try())?;
            ensure!(r == if fits { Some(low) } else { None }, "{}: {} gave {:?}, low bits are {:#x}", show(&m), stringify!($try), r, low);
            let r = no_panic(stringify!($trunc), || s.$trunc())?;
            ensure!(r == low, "{}: {} gave {:#x}, expected {:#x}", show(&m), stringify!($trunc), r, low);
            let r = caught(|| s.$as());
            ensure!(r == if fits { Some(low) } else { None }, "{}: {} gave {:?} (None: panic), low bits are {:#x}", show(&m), stringify!($as), r, low);
            cov.label(if fits { concat!("fits ", stringify!($t)) } else { concat!("exceeds ", stringify!($t)) });
        }};
    }
    widths!(check);
    Ok(())
}

pub fn import<T: Subject>(c: &ImportCase, cov: &mut Cov) -> R {
    let info = T::INFO;
    macro_rules! check {
        ($t:ident, $as:ident $try_as:ident $as_trunc:ident $from:ident $try:ident $trunc:ident $unchecked:ident) => {{
            let mut bits = c.bits.bits(info.discr, $t::BITS);
            if c.clean {
                bits.retain(|x| info.has(*x));
            }
            let x = bits.iter().fold(0 as $t, |a, b| a | (1 as $t) << b);
            let valid: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
            let ok = valid.len() == bits.len();
            let expected: EnumSet<T> = canon(&valid);
            if !bits.is_empty() {
                cov.label(if ok { concat!("valid ", stringify!($t)) } else { concat!("invalid ", stringify!($t)) });
                if valid.len() >= 1 {
                    cov.nontrivial = true;
                }
            }
            let r: Option<EnumSet<T>> = no_panic(stringify!($try), || EnumSet::$try(x))?;
            ensure!(r.is_some() == ok, "{}({:#x}) is {}, valid: {}", stringify!($try), x, if r.is_some() { "a set" } else { "none" }, ok);
            if let Some(s) = r {
                expect_at(format_args!("{}({:#x})", stringify!($try), x), &s, &bits)?;
                ensure!(s == expected, "{}({:#x}) holds more than its members", stringify!($try), x);
            }
            let r: Option<EnumSet<T>> = caught(|| EnumSet::$from(x));
            ensure!(r.is_some() == ok, "{}({:#x}): {}, valid: {}", stringify!($from), x, if r.is_some() { "no panic" } else { "panic" }, ok);
            if let Some(s) = r {
                if !cfg!(feature = "light") {
                    expect_at(format_args!("{}({:#x})", stringify!($from), x), &s, &bits)?;
                }
                ensure!(s == expected, "{}({:#x}) holds other things than its members", stringify!($from), x);
                // documented precondition holds: no invalid bit
                let u: EnumSet<T> = no_panic(stringify!($unchecked), || unsafe { EnumSet::$unchecked(x) })?;
                if !cfg!(feature = "light") {
                    expect_at(format_args!("{}({:#x})", stringify!($unchecked), x), &u, &bits)?;
                }
                ensure!(u == s, "{}({:#x}) differs from the checked form", stringify!($unchecked), x);
            }
            let s: EnumSet<T> = no_panic(stringify!($trunc), || EnumSet::$trunc(x))?;
            expect_at(format_args!("{}({:#x})", stringify!($trunc), x), &s, &valid)?;
            ensure!(s == expected, "{}({:#x}) kept bits that are no variants", stringify!($trunc), x);
        }};
    }
    widths!(check);
    Ok(())
}
