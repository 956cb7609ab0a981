//! C15: any input at all. The oracle is what the same input means as plain data: the integer, the
//! list of words, the list of variants or the map from variants to booleans that serde itself
//! reads from it. Where plain data is refused the set must be refused; where it is accepted the
//! set must hold exactly its known bits (or be refused for the unknown ones), and the same part of
//! the input must have been consumed.
use crate::rec::*;
use crate::*;
use serde::de::{DeserializeOwned, MapAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::marker::PhantomData;

impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Tok::Unit => s.serialize_unit(),
            Tok::None => s.serialize_none(),
            Tok::Some(x) => s.serialize_some(&**x),
            Tok::Bool(x) => s.serialize_bool(*x),
            Tok::U8(x) => s.serialize_u8(*x),
            Tok::U16(x) => s.serialize_u16(*x),
            Tok::U32(x) => s.serialize_u32(*x),
            Tok::U64(x) => s.serialize_u64(*x),
            Tok::U128(x) => s.serialize_u128(*x),
            Tok::I64(x) => s.serialize_i64(*x),
            Tok::F64(x) => s.serialize_f64(*x),
            Tok::Str(x) => s.serialize_str(x),
            Tok::Bytes(x) => s.serialize_bytes(x),
            Tok::Seq(_, v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tok::Map(_, v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            Tok::Newtype(x) => s.serialize_newtype_struct("N", &**x),
            Tok::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Tok::Other(x) => Err(serde::ser::Error::custom(x)),
        }
    }
}

/// A map as the list of its entries.
struct Pairs<T>(Vec<(T, bool)>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Pairs<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for V<T> {
            type Value = Pairs<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Pairs<T>, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = m.next_entry::<T, bool>()? {
                    v.push(x);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(V(PhantomData))
    }
}

fn tok(v: &Val, info: &TypeInfo, depth: u32) -> Tok {
    let name = |i: u16| -> Tok {
        let n = info.n();
        if n == 0 {
            return Tok::Str("Nothing".to_string());
        }
        let d = info.discr[i as usize % n];
        let at = info.declared.iter().position(|x| *x == d).unwrap();
        Tok::UnitVariant("E", at as u32, info.names[i as usize % n])
    };
    let int = |b: &Model, w: u32| {
        let n = b.iter().filter(|x| **x < w).fold(0u128, |a, x| a | 1 << x);
        match w {
            8 => Tok::U8(n as u8),
            16 => Tok::U16(n as u16),
            32 => Tok::U32(n as u32),
            64 => Tok::U64(n as u64),
            _ => Tok::U128(n),
        }
    };
    if depth == 0 {
        return Tok::Unit;
    }
    let sub = |x: &Val| tok(x, info, depth - 1);
    match v {
        Val::Unit => Tok::Unit,
        Val::None => Tok::None,
        Val::Some(x) => Tok::Some(Box::new(sub(x))),
        Val::Bool(x) => Tok::Bool(*x),
        Val::U(x) => match x % 4 {
            // small numbers in narrow types, too
            0 if *x >> 2 < 256 => Tok::U8((*x >> 2) as u8),
            1 if *x >> 2 < 1 << 32 => Tok::U32((*x >> 2) as u32),
            _ => Tok::U64(*x),
        },
        Val::U128(a, b) => Tok::U128((*a as u128) << 64 | *b as u128),
        Val::I(x) => Tok::I64(*x),
        Val::F(x) => Tok::F64(f64::from_bits(*x)),
        Val::Str(x) => Tok::Str(x.clone()),
        Val::Bytes(x) => Tok::Bytes(x.clone()),
        Val::Seq(v) => Tok::Seq(None, v.iter().map(sub).collect()),
        Val::Map(v) => Tok::Map(None, v.iter().map(|(k, x)| (sub(k), sub(x))).collect()),
        Val::Name(i) => match name(*i) {
            Tok::UnitVariant(_, _, n) if i & 0x8000 != 0 => Tok::Str(n.to_string()),
            x => x,
        },
        Val::Variant(i) => name(*i),
        Val::Bits(b) => {
            let w = match info.ser {
                SerKind::Int(w) => w,
                _ => 64,
            };
            int(&b.bits(info.discr, w), w)
        }
        Val::Words(b, len) => {
            let len = arrays::pick_len(info.words(), 3, *len);
            let bits = b.bits(info.discr, len as u32 * 64);
            let mut w = model_words(&bits);
            w.resize(len, 0);
            Tok::Seq(None, w.into_iter().map(Tok::U64).collect())
        }
        Val::Newtype(x) => Tok::Newtype(Box::new(sub(x))),
    }
}

enum Input {
    Tokens(Tok, Quirks),
    Json(Vec<u8>),
    JsonReader(Vec<u8>),
    JsonValue(serde_json::Value),
    Bincode(Vec<u8>),
    Cbor(Vec<u8>),
    CborValue(ciborium::Value),
}
impl fmt::Debug for Input {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Input::Tokens(t, q) => write!(f, "tokens {:?} {:?}", t, q),
            Input::Json(b) | Input::JsonReader(b) => write!(f, "json {:?}", String::from_utf8_lossy(b)),
            Input::JsonValue(v) => write!(f, "json value {}", v),
            Input::Bincode(b) => write!(f, "bincode {:02x?}", b),
            Input::Cbor(b) => write!(f, "cbor {:02x?}", b),
            Input::CborValue(b) => write!(f, "cbor value {:?}", b),
        }
    }
}
impl Input {
    /// The value and how much input was left.
    fn read<X: DeserializeOwned>(&self) -> Result<(X, usize), String> {
        match self {
            Input::Tokens(t, q) => from_tok(t, *q).map(|x| (x, 0)).map_err(|e| e.0),
            Input::Json(b) => {
                let mut d = serde_json::Deserializer::from_slice(b);
                let x = X::deserialize(&mut d).map_err(|e| e.to_string())?;
                d.end().map_err(|e| e.to_string())?;
                Ok((x, 0))
            }
            Input::JsonReader(b) => {
                let mut s = serde_json::Deserializer::from_reader(&b[..]).into_iter::<X>();
                match s.next() {
                    Some(Ok(x)) => Ok((x, b.len() - s.byte_offset())),
                    Some(Err(e)) => Err(e.to_string()),
                    None => Err("no input".to_string()),
                }
            }
            Input::JsonValue(v) => X::deserialize(v).map(|x| (x, 0)).map_err(|e| e.to_string()),
            Input::Bincode(b) => {
                let mut r = &b[..];
                let x: X = bincode::deserialize_from(&mut r).map_err(|e| e.to_string())?;
                Ok((x, r.len()))
            }
            Input::Cbor(b) => {
                let mut r = &b[..];
                let x: X = ciborium::from_reader(&mut r).map_err(|e| e.to_string())?;
                Ok((x, r.len()))
            }
            Input::CborValue(v) => v.deserialized().map(|x| (x, 0)).map_err(|e| e.to_string()),
        }
    }
}

/// Sequences and maps of unannounced length.
fn cbor_indefinite(t: &Tok, out: &mut Vec<u8>) -> Option<()> {
    match t {
        Tok::Seq(_, v) => {
            out.push(0x9f);
            for x in v {
                cbor_indefinite(x, out)?;
            }
            out.push(0xff);
        }
        Tok::Map(_, v) => {
            out.push(0xbf);
            for (k, x) in v {
                cbor_indefinite(k, out)?;
                cbor_indefinite(x, out)?;
            }
            out.push(0xff);
        }
        Tok::Some(x) | Tok::Newtype(x) => cbor_indefinite(x, out)?,
        x => ciborium::into_writer(x, out).ok()?,
    }
    Some(())
}

fn input(c: &HostileCase, t: &Tok, nested: bool) -> Option<Input> {
    let t = if nested {
        Tok::Seq(None, vec![Tok::U8(7), t.clone(), Tok::U8(9)])
    } else {
        t.clone()
    };
    let tuple = |b: Result<Vec<u8>, bincode::Error>, t: &Tok| -> Option<Vec<u8>> {
        // a tuple has no length in bincode
        let b = b.ok()?;
        Some(if let (true, Tok::Seq(_, _)) = (nested, t) { b[8..].to_vec() } else { b })
    };
    let mut bytes = match c.format % 9 {
        0 => {
            let q = c.damage.first().map_or(0, |x| x.1);
            return Some(Input::Tokens(t, Quirks { human: q & 1 == 0, hint: q >> 1, by_index: q & 8 == 8 }));
        }
        1 | 2 => serde_json::to_vec(&t).ok()?,
        3 => return serde_json::to_value(&t).ok().map(Input::JsonValue),
        4 => tuple(bincode::serialize(&t), &t)?,
        5 | 6 => {
            let mut b = Vec::new();
            ciborium::into_writer(&t, &mut b).ok()?;
            b
        }
        7 => {
            let mut b = Vec::new();
            cbor_indefinite(&t, &mut b)?;
            b
        }
        _ => return ciborium::Value::serialized(&t).ok().map(Input::CborValue),
    };
    if c.format < 128 {
        if !c.raw.is_empty() {
            bytes = c.raw.clone();
        }
        for (p, x) in &c.damage {
            let n = bytes.len();
            if n > 0 {
                bytes[*p as usize % n] ^= x;
            }
        }
        if let Some(x) = c.cut {
            let n = bytes.len();
            bytes.truncate(x as usize % (n + 1));
        }
    }
    Some(match c.format % 9 {
        1 => Input::Json(bytes),
        2 => Input::JsonReader(bytes),
        4 => Input::Bincode(bytes),
        _ => Input::Cbor(bytes),
    })
}

type Nest<X> = (u8, X, u8);

pub fn run<T: Subject>(c: &HostileCase, cov: &mut Cov) -> R {
    let info = T::INFO;
    let t = tok(&c.val, &info, 5);
    // (bits, items) the plain data stands for, and what was left of the input
    macro_rules! check {
        ($ref:ty, $bits:expr) => {
            for nested in [false, true] {
                let Some(inp) = input(c, &t, nested) else { continue };
                let (plain, set) = if nested {
                    (
                        inp.read::<Nest<$ref>>().map(|x| (x.0 .1, x.1, x.0 .0 as u32 * 256 + x.0 .2 as u32)),
                        no_panic("deserializing", || inp.read::<Nest<EnumSet<T>>>())
                            .map_err(|e| format!("{} from {:?}", e, inp))?
                            .map(|x| (x.0 .1, x.1, x.0 .0 as u32 * 256 + x.0 .2 as u32)),
                    )
                } else {
                    (
                        inp.read::<$ref>().map(|x| (x.0, x.1, 0)),
                        no_panic("deserializing", || inp.read::<EnumSet<T>>())
                            .map_err(|e| format!("{} from {:?}", e, inp))?
                            .map(|x| (x.0, x.1, 0)),
                    )
                };
                match plain {
                    Err(e) => {
                        cov.label("malformed input");
                        ensure!(set.is_err(), "{:?} was accepted as {:?}, though it is no {}: {}", inp, set.unwrap().0, stringify!($ref), e);
                    }
                    Ok((x, left, around)) => {
                        let f: fn($ref) -> Option<Model> = $bits;
                        let Some(bits) = f(x) else {
                            cov.label("conflicting entries");
                            continue;
                        };
                        let known: Model = bits.iter().copied().filter(|x| info.has(*x)).collect();
                        let clean = known == bits;
                        if !bits.is_empty() {
                            cov.nontrivial = true;
                        }
                        cov.label(if clean { "well-formed, known bits only" } else { "well-formed, unknown bits" });
                        if info.deny && !clean {
                            cov.label("unknown bits to be refused");
                            ensure!(set.is_err(), "{:?} was accepted as {:?}, though it has unknown bits: {}", inp, set.unwrap().0, show(&bits));
                            continue;
                        }
                        match set {
                            Err(e) => return Err(format!("{:?} was refused: {}; it stands for {}", inp, e, show(&bits))),
                            Ok((s, l, a)) => {
                                expect_at(format_args!("{:?}", inp), &s, &known)?;
                                let c = canon::<T>(&known);
                                ensure!(s == c && s.len() == known.len(), "{:?}: the set is not equal to {:?}", inp, c);
                                ensure!(l == left && a == around, "{:?}: {} bytes left over, plain data leaves {}", inp, l, left);
                            }
                        }
                    }
                }
            }
        };
    }
    match info.ser {
        SerKind::Int(8) => check!(u8, |x| Some(u128_model(x as u128))),
        SerKind::Int(16) => check!(u16, |x| Some(u128_model(x as u128))),
        SerKind::Int(32) => check!(u32, |x| Some(u128_model(x as u128))),
        SerKind::Int(64) => check!(u64, |x| Some(u128_model(x as u128))),
        SerKind::Int(_) => check!(u128, |x| Some(u128_model(x))),
        SerKind::Array => check!(Vec<u64>, |x| Some(words_model(&x))),
        SerKind::List => check!(Vec<T>, |x| Some(x.into_iter().map(|x| x.d()).collect())),
        SerKind::Map => check!(Pairs<T>, |x| {
            let on: Model = x.0.iter().filter(|x| x.1).map(|x| x.0.d()).collect();
            let off: Model = x.0.iter().filter(|x| !x.1).map(|x| x.0.d()).collect();
            // a variant mapped to both is nowhere specified
            if on.is_disjoint(&off) { Some(on) } else { None }
        }),
    }
    Ok(())
}
