//! C10: explicit representations.
use crate::*;
use core::mem::{align_of, size_of};

struct Consts<T>(T);
impl<T: ReprSubject> Consts<T> {
    const EMPTY: <T as enumset::EnumSetTypeWithRepr>::Repr = EnumSet::<T>::empty().as_repr();
    const ALL: <T as enumset::EnumSetTypeWithRepr>::Repr = EnumSet::<T>::all().as_repr();
}

/// The bytes of a set, as the integer they are.
fn raw<T: ReprSubject>(s: &EnumSet<T>) -> u128 {
    assert_eq!(size_of::<EnumSet<T>>(), size_of::<T::Int>());
    // SAFETY: same size, checked above; every bit pattern of an integer is valid
    let x: T::Int = unsafe { std::mem::transmute_copy(s) };
    x.to128()
}

pub fn run<T: ReprSubject>(c: &ReprCase, cov: &mut Cov) -> R {
    no_panic("representation", || inner::<T>(c, cov))?
}
fn inner<T: ReprSubject>(c: &ReprCase, cov: &mut Cov) -> R {
    let info = T::INFO;
    ensure!(T::Int::BITS == info.int_repr, "Repr has {} bits, asked for {}", T::Int::BITS, info.int_repr);
    ensure!(size_of::<EnumSet<T>>() == info.int_repr as usize / 8, "size is {}", size_of::<EnumSet<T>>());
    ensure!(align_of::<EnumSet<T>>() == align_of::<T::Int>(), "alignment is {}", align_of::<EnumSet<T>>());
    let num = |m: &Model| m.iter().fold(0u128, |a, b| a | 1 << b);
    let m = c.set.model(info.discr);
    let s = build::checked::<T>(&m, c.route);
    cov.nontrivial = m.len() >= 2;
    ensure!(T::out(s.as_repr()).to128() == num(&m), "{}: as_repr is {:?}", show(&m), s.as_repr());
    ensure!(raw(&s) == num(&m), "{}: memory is {:#x}, expected {:#x}", show(&m), raw(&s), num(&m));
    ensure!(raw(&s.complement()) == num(&compl::<T>(&m)), "complement of {}: memory is {:#x}", show(&m), raw(&s.complement()));
    ensure!(T::out(Consts::<T>::EMPTY).to128() == 0, "const as_repr of the empty set");
    ensure!(T::out(Consts::<T>::ALL).to128() == num(&all_model::<T>()), "const as_repr of the full set is {:#x}", T::out(Consts::<T>::ALL).to128());
    if let Some(v) = var::<T>(c.v) {
        ensure!(raw(&EnumSet::only(v)) == 1 << v.d(), "only({}): memory is {:#x}", v.d(), raw(&EnumSet::only(v)));
    }
    let a: EnumSet<T> = unsafe { EnumSet::from_repr_unchecked(T::inp(T::Int::from128(num(&m)))) };
    ensure!(a == s && members(&a) == m, "from_repr_unchecked(as_repr()) of {} is not the set", show(&m));
    // a value received as an integer
    // SAFETY: same layout, no invalid bits
    let ffi: EnumSet<T> = unsafe { std::mem::transmute_copy(&T::Int::from128(num(&m))) };
    ensure!(ffi == s && members(&ffi) == m, "transmuted from the integer: {:?}", members(&ffi));
    // import
    let mut bits = c.bits.bits(info.discr, T::Int::BITS);
    if c.clean {
        bits.retain(|x| info.has(*x));
    }
    let valid: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
    let ok = valid == bits;
    cov.label(if ok { "valid" } else { "invalid" });
    let x = T::inp(T::Int::from128(num(&bits)));
    let t = no_panic("try_from_repr", || EnumSet::<T>::try_from_repr(x))?;
    ensure!(t.is_some() == ok, "try_from_repr({:#x}) is {}, valid: {}", num(&bits), if t.is_some() { "a set" } else { "none" }, ok);
    if let Some(t) = t {
        ensure!(members(&t) == bits && raw(&t) == num(&bits), "try_from_repr({:#x}): {:?}", num(&bits), members(&t));
        let u: EnumSet<T> = unsafe { EnumSet::from_repr_unchecked(x) };
        ensure!(u == t && members(&u) == bits, "from_repr_unchecked({:#x}) differs", num(&bits));
    }
    let t = caught(|| EnumSet::<T>::from_repr(x));
    ensure!(t.is_some() == ok, "from_repr({:#x}): {}, valid: {}", num(&bits), if t.is_some() { "no panic" } else { "panic" }, ok);
    if let Some(t) = t {
        ensure!(members(&t) == bits && raw(&t) == num(&bits), "from_repr({:#x}): {:?}", num(&bits), members(&t));
    }
    let t = no_panic("from_repr_truncated", || EnumSet::<T>::from_repr_truncated(x))?;
    ensure!(members(&t) == valid && raw(&t) == num(&valid), "from_repr_truncated({:#x}): {:?}, memory {:#x}", num(&bits), members(&t), raw(&t));
    Ok(())
}
