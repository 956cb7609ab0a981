//! The enums the runtime checks run on: the catalogue and the random ones of this seed.
#![allow(deprecated)]
use core::fmt::{self, Debug, Display, Formatter};
pub use enumset;
use enumset::{EnumSet, EnumSetType, EnumSetTypeWithRepr};
pub use vcase::{SerKind, TypeInfo};

/// What the checks need from an enum, written by the generator independently of the derive.
pub trait Subject:
    EnumSetType
    + Debug
    + Display
    + Ord
    + serde::Serialize
    + serde::de::DeserializeOwned
    + Send
    + Sync
    + 'static
{
    const INFO: TypeInfo;
    /// the discriminant
    fn d(self) -> u32;
    fn from_d(d: u32) -> Option<Self>;
}

/// The enums' own order is not that of their discriminants.
pub fn own_order(d: u32) -> u32 {
    d.wrapping_mul(0x9E37_79B1)
}

/// An unrelated type convertible into a set.
#[derive(Clone, Copy)]
pub struct Conv<T: EnumSetType>(pub EnumSet<T>);
impl<T: EnumSetType> From<Conv<T>> for EnumSet<T> {
    fn from(x: Conv<T>) -> Self {
        x.0
    }
}

/// Enums with the derived operators.
pub trait OpsSubject:
    Subject
    + core::ops::BitOr<Self, Output = EnumSet<Self>>
    + core::ops::BitAnd<Self, Output = EnumSet<Self>>
    + core::ops::BitXor<Self, Output = EnumSet<Self>>
    + core::ops::Sub<Self, Output = EnumSet<Self>>
    + core::ops::BitOr<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::BitAnd<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::BitXor<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::Sub<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::BitOr<Conv<Self>, Output = EnumSet<Self>>
    + core::ops::BitAnd<Conv<Self>, Output = EnumSet<Self>>
    + core::ops::BitXor<Conv<Self>, Output = EnumSet<Self>>
    + core::ops::Sub<Conv<Self>, Output = EnumSet<Self>>
    + core::ops::Not<Output = EnumSet<Self>>
    + PartialEq<EnumSet<Self>>
{
}
impl<T> OpsSubject for T where
    T: Subject
        + core::ops::BitOr<T, Output = EnumSet<T>>
        + core::ops::BitAnd<T, Output = EnumSet<T>>
        + core::ops::BitXor<T, Output = EnumSet<T>>
        + core::ops::Sub<T, Output = EnumSet<T>>
        + core::ops::BitOr<EnumSet<T>, Output = EnumSet<T>>
        + core::ops::BitAnd<EnumSet<T>, Output = EnumSet<T>>
        + core::ops::BitXor<EnumSet<T>, Output = EnumSet<T>>
        + core::ops::Sub<EnumSet<T>, Output = EnumSet<T>>
        + core::ops::BitOr<Conv<T>, Output = EnumSet<T>>
        + core::ops::BitAnd<Conv<T>, Output = EnumSet<T>>
        + core::ops::BitXor<Conv<T>, Output = EnumSet<T>>
        + core::ops::Sub<Conv<T>, Output = EnumSet<T>>
        + core::ops::Not<Output = EnumSet<T>>
        + PartialEq<EnumSet<T>>
{
}

/// Integers a set can be laid out as.
pub trait ReprInt: Copy + Eq + Debug + 'static {
    const BITS: u32;
    fn to128(self) -> u128;
    fn from128(x: u128) -> Self;
}
macro_rules! repr_int {
    ($($t:ident)*) => {$(
        impl ReprInt for $t {
            const BITS: u32 = $t::BITS;
            fn to128(self) -> u128 { self as u128 }
            fn from128(x: u128) -> Self { x as $t }
        }
    )*}
}
repr_int!(u8 u16 u32 u64 u128);

pub trait ReprSubject: Subject + EnumSetTypeWithRepr {
    type Int: ReprInt;
    fn out(r: <Self as EnumSetTypeWithRepr>::Repr) -> Self::Int;
    fn inp(r: Self::Int) -> <Self as EnumSetTypeWithRepr>::Repr;
}
impl<T: Subject + EnumSetTypeWithRepr> ReprSubject for T
where <T as EnumSetTypeWithRepr>::Repr: ReprInt
{
    type Int = <T as EnumSetTypeWithRepr>::Repr;
    fn out(r: Self::Int) -> Self::Int {
        r
    }
    fn inp(r: Self::Int) -> Self::Int {
        r
    }
}

pub fn custom_debug(name: &str, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str(name)?;
    write!(
        f,
        "[{}{}{}{:?}{:?}{:?}]",
        if f.alternate() { "#" } else { "" },
        if f.sign_plus() { "+" } else { "" },
        if f.sign_aware_zero_pad() { "0" } else { "" },
        f.width(),
        f.precision(),
        f.fill(),
    )?;
    // 12 becomes `c`, `C` or `12`
    Debug::fmt(&12u8, f)?;
    if f.alternate() {
        f.write_str("\nnext | line")?;
    }
    Ok(())
}
pub fn custom_display(name: &str, f: &mut Formatter<'_>) -> fmt::Result {
    match f.align() {
        Some(fmt::Alignment::Left) => f.write_str("l")?,
        Some(fmt::Alignment::Right) => f.write_str("r")?,
        Some(fmt::Alignment::Center) => f.write_str("c")?,
        None => f.write_str("n")?,
    }
    if f.sign_minus() {
        f.write_str("-")?;
    }
    f.pad(name)
}

pub mod types {
    #![allow(unreachable_patterns, unused_variables, dead_code, clippy::all)]
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/types.rs"));
}
