//! C13: round trips, C14: the serialized form.
use crate::rec::*;
use crate::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "")]
struct Rec<T: Subject> {
    before: u8,
    set: EnumSet<T>,
    opt: Option<EnumSet<T>>,
    after: String,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "")]
struct Tup<T: Subject>(u16, EnumSet<T>, EnumSet<T>, bool);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "")]
enum En<T: Subject> {
    A(EnumSet<T>),
    B { x: EnumSet<T>, y: u32 },
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "", tag = "t")]
enum Tagged<T: Subject> {
    B { x: EnumSet<T>, y: u32 },
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "")]
struct Flat<T: Subject> {
    y: u32,
    #[serde(flatten)]
    r: Inner<T>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "")]
struct Inner<T: Subject> {
    x: EnumSet<T>,
}

macro_rules! step {
    ($n:expr, $what:expr, $e:expr) => {
        match no_panic($n, || $e)? {
            Ok(x) => x,
            Err(e) => return Err(format!("{} of {}: {}", $n, $what, e)),
        }
    };
}
trait Data: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug {}
impl<V: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug> Data for V {}

fn json_text<V: Data>(v: &V, cov: &mut Cov, what: &str) -> Result<V, String> {
    cov.label("json text");
    let t = step!("json to_string", what, serde_json::to_string(v));
    Ok(step!("json from_str", what, serde_json::from_str(&t).map_err(|e| format!("{}: {}", t, e))))
}
fn json_value<V: Data>(v: &V, cov: &mut Cov, what: &str) -> Result<Option<V>, String> {
    // values hold no integer beyond 64 bits
    let t = match no_panic("json to_value", || serde_json::to_value(v))? {
        Ok(t) => t,
        Err(e) if e.to_string().contains("out of range") => return Ok(None),
        Err(e) => return Err(format!("json to_value of {}: {}", what, e)),
    };
    cov.label("json value");
    Ok(Some(step!("json from_value", what, serde_json::from_value(t.clone()).map_err(|e| format!("{}: {}", t, e)))))
}
fn bin<V: Data>(v: &V, cov: &mut Cov, what: &str) -> Result<V, String> {
    cov.label("bincode");
    let t = step!("bincode serialize", what, bincode::serialize(v));
    let n = step!("bincode serialized_size", what, bincode::serialized_size(v));
    ensure!(n == t.len() as u64, "{}: bincode size {} but {} bytes", what, n, t.len());
    Ok(step!("bincode deserialize", what, bincode::deserialize(&t).map_err(|e| format!("{:?}: {}", t, e))))
}
fn cbor<V: Data>(v: &V, cov: &mut Cov, what: &str) -> Result<V, String> {
    cov.label("cbor");
    let mut t = Vec::new();
    step!("cbor into_writer", what, ciborium::into_writer(v, &mut t));
    Ok(step!("cbor from_reader", what, ciborium::from_reader(&t[..]).map_err(|e| format!("{:?}: {}", t, e))))
}

/// Write, read, compare; in one of the formats.
fn round<V: Data>(v: &V, format: u8, cov: &mut Cov, what: &str) -> R {
    let back: V = match format % 9 {
        0 => json_text(v, cov, what)?,
        1 => {
            cov.label("json bytes, pretty");
            let t = step!("json to_vec_pretty", what, serde_json::to_vec_pretty(v));
            step!("json from_slice", what, serde_json::from_slice(&t))
        }
        2 => {
            cov.label("json reader");
            let t = step!("json to_vec", what, serde_json::to_vec(v));
            step!("json from_reader", what, serde_json::from_reader(&t[..]))
        }
        3 => match json_value(v, cov, what)? {
            Some(x) => x,
            None => return Ok(()),
        },
        4 => bin(v, cov, what)?,
        5 => {
            use bincode::Options;
            cov.label("bincode, varint big endian");
            let o = || bincode::DefaultOptions::new().with_big_endian();
            let t = step!("bincode serialize", what, o().serialize(v));
            step!("bincode deserialize", what, o().deserialize(&t).map_err(|e| format!("{:?}: {}", t, e)))
        }
        6 => cbor(v, cov, what)?,
        7 => {
            let t = step!("cbor serialized", what, ciborium::Value::serialized(v));
            cov.label("cbor value");
            step!("cbor deserialized", what, t.deserialized().map_err(|e| format!("{:?}: {}", t, e)))
        }
        _ => {
            cov.label("bincode reader");
            let t = step!("bincode serialize", what, bincode::serialize(v));
            step!("bincode deserialize_from", what, bincode::deserialize_from(&t[..]))
        }
    };
    ensure!(back == *v, "{} came back as {:?} in format {}", what, back, format % 9);
    Ok(())
}
/// The same for nested data, in fewer formats.
fn few<V: Data>(v: &V, format: u8, cov: &mut Cov, what: &str) -> R {
    let back = match format % 3 {
        0 => json_text(v, cov, what)?,
        1 => bin(v, cov, what)?,
        _ => cbor(v, cov, what)?,
    };
    ensure!(back == *v, "{} came back as {:?} in format {} of 3", what, back, format % 3);
    Ok(())
}
/// The same for data that only a self-describing format can hold.
fn described<V: Data>(v: &V, format: u8, cov: &mut Cov, what: &str) -> R {
    let back = match format % 2 {
        0 => Some(json_text(v, cov, what)?),
        _ => json_value(v, cov, what)?,
    };
    if let Some(back) = back {
        ensure!(back == *v, "{} came back as {:?} in format {} of 2", what, back, format % 2);
    }
    Ok(())
}

pub fn run<T: Subject>(c: &SerCase, cov: &mut Cov) -> R {
    let mut sets: Vec<EnumSet<T>> = Vec::new();
    let mut models = Vec::new();
    for s in &c.sets {
        let m = s.model(T::INFO.discr);
        // the expected value is made by insertion alone
        sets.push(no_panic("building the set", || build::checked::<T>(&m, c.route))?);
        models.push(m);
    }
    if sets.is_empty() {
        return Ok(());
    }
    let (s, m) = (sets[0], &models[0]);
    cov.nontrivial = m.len() >= 1;
    if m.last() == T::INFO.discr.last() && m.len() > 1 {
        cov.label("highest variant");
    }
    let what = format!("{} ({} in {})", show(m), T::INFO.name, ["set", "vector", "struct", "tuple", "enum", "map", "tagged", "flattened"][c.nest as usize % 8]);
    let l = *sets.last().unwrap();
    match c.nest % 8 {
        0 => round(&s, c.format, cov, &what)?,
        1 => few(&sets, c.format, cov, &what)?,
        2 => few(&Rec { before: c.pad, set: s, opt: Some(l), after: "x".repeat(c.pad as usize % 5) }, c.format, cov, &what)?,
        3 => few(&Tup(c.pad as u16, s, l, c.pad & 1 == 1), c.format, cov, &what)?,
        4 => {
            few(&En::A(s), c.format, cov, &what)?;
            few(&En::B { x: s, y: c.pad as u32 }, c.format, cov, &what)?;
        }
        5 => {
            let m: BTreeMap<u8, EnumSet<T>> = sets.iter().enumerate().map(|x| (x.0 as u8, *x.1)).collect();
            few(&m, c.format, cov, &what)?
        }
        // buffered through serde's own content type: self-describing formats only, up to 64 bits
        6 if T::INFO.ser != SerKind::Int(128) => described(&Tagged::B { x: s, y: c.pad as u32 }, c.format, cov, &what)?,
        7 if T::INFO.ser != SerKind::Int(128) => described(&Flat { y: c.pad as u32, r: Inner { x: s } }, c.format, cov, &what)?,
        _ => round(&s, c.format, cov, &what)?,
    }
    // without any format in between
    for human in [false, true] {
        let t = no_panic("serialize", || to_tok(&s, human))?.map_err(|e| format!("serialize {}: {}", show(m), e))?;
        let q = Quirks { human, hint: c.pad, by_index: c.pad & 16 != 0 };
        let b: EnumSet<T> = no_panic("deserialize", || from_tok(&t, q))?.map_err(|e| format!("{} as {:?}: {}", show(m), t, e))?;
        ensure!(b == s, "{} as {:?} came back as {:?}", show(m), t, members(&b));
        expect_members("after the round trip", &b, m)?;
    }
    // into an existing place
    let mut place: EnumSet<T> = l;
    let t = to_tok(&s, true).unwrap();
    no_panic("deserialize_in_place", || EnumSet::<T>::deserialize_in_place(De(&t, Quirks { human: true, hint: 0, by_index: false }), &mut place))?
        .map_err(|e| e.to_string())?;
    ensure!(place == s, "deserialized in place: {:?}", members(&place));
    Ok(())
}

pub fn form<T: Subject>(c: &SerCase, cov: &mut Cov) -> R {
    let info = T::INFO;
    let m = match c.sets.first() {
        Some(s) => s.model(info.discr),
        None => return Ok(()),
    };
    let s: EnumSet<T> = no_panic("building the set", || build::checked::<T>(&m, c.route))?;
    cov.nontrivial = m.len() >= 2;
    for human in [false, true] {
        let t = no_panic("serialize", || to_tok(&s, human))?.map_err(|e| format!("serialize {}: {}", show(&m), e))?;
        let name = |d: &u32| info.names[info.discr.binary_search(d).unwrap()];
        let bits = m.iter().filter(|x| **x < 128).fold(0u128, |a, x| a | 1 << x);
        match info.ser {
            SerKind::Int(w) => {
                cov.label("integer");
                let e = match w {
                    8 => Tok::U8(bits as u8),
                    16 => Tok::U16(bits as u16),
                    32 => Tok::U32(bits as u32),
                    64 => Tok::U64(bits as u64),
                    _ => Tok::U128(bits),
                };
                ensure!(t == e, "{} serialized as {:?}, expected {:?}", show(&m), t, e);
            }
            SerKind::Array => {
                cov.label("array");
                let (n, v) = match &t {
                    Tok::Seq(n, v) => (n, v),
                    _ => return Err(format!("{} serialized as {:?}, expected a list of words", show(&m), t)),
                };
                let mut words = Vec::new();
                for x in v {
                    match x {
                        Tok::U64(x) => words.push(*x),
                        _ => return Err(format!("{} serialized as {:?}, expected u64 words", show(&m), t)),
                    }
                }
                ensure!(*n == Some(words.len()), "{} announced {:?} words and wrote {}", show(&m), n, words.len());
                let mut e = model_words(&m);
                ensure!(words.len() >= e.len(), "{} serialized as {:x?}, expected {:x?} and zeros", show(&m), words, e);
                e.resize(words.len(), 0);
                ensure!(words == e, "{} serialized as {:x?}, expected {:x?}", show(&m), words, e);
            }
            SerKind::List => {
                cov.label("list");
                let (n, v) = match &t {
                    Tok::Seq(n, v) => (n, v),
                    _ => return Err(format!("{} serialized as {:?}, expected a list", show(&m), t)),
                };
                let mut got = Vec::new();
                for x in v {
                    match x {
                        Tok::UnitVariant(_, _, n) => got.push(*n),
                        _ => return Err(format!("{} serialized as {:?}, expected variants", show(&m), t)),
                    }
                }
                let e: Vec<&str> = m.iter().map(name).collect();
                ensure!(got == e, "{} serialized as {:?}, expected {:?}", show(&m), got, e);
                ensure!(*n == Some(e.len()), "{} announced {:?} members and wrote {}", show(&m), n, e.len());
            }
            SerKind::Map => {
                cov.label("map");
                let (n, v) = match &t {
                    Tok::Map(n, v) => (n, v),
                    _ => return Err(format!("{} serialized as {:?}, expected a map", show(&m), t)),
                };
                let mut got = std::collections::BTreeSet::new();
                for x in v {
                    match x {
                        (Tok::UnitVariant(_, _, n), Tok::Bool(true)) => {
                            ensure!(got.insert(*n), "{} serialized as {:?}: repeated key", show(&m), t);
                        }
                        _ => return Err(format!("{} serialized as {:?}, expected members mapped to true", show(&m), t)),
                    }
                }
                let e: std::collections::BTreeSet<&str> = m.iter().map(name).collect();
                ensure!(got == e, "{} serialized as {:?}, expected the keys {:?}", show(&m), t, e);
                ensure!(*n == Some(e.len()), "{} announced {:?} entries and wrote {}", show(&m), n, e.len());
            }
        }
    }
    // the text of the format most users see
    let j = no_panic("json", || serde_json::to_string(&s))?.map_err(|e| e.to_string())?;
    match info.ser {
        SerKind::Int(_) => {
            let e = m.iter().fold(0u128, |a, x| a | 1 << x).to_string();
            ensure!(j == e, "{} is {} in JSON, expected {}", show(&m), j, e)
        }
        SerKind::Array => {
            let w: Vec<u64> = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
            ensure!(words_model(&w) == m, "{} is {} in JSON", show(&m), j)
        }
        SerKind::List => {
            let w: Vec<String> = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
            let e: Vec<&str> = m.iter().map(|d| info.names[info.discr.binary_search(d).unwrap()]).collect();
            ensure!(w == e, "{} is {} in JSON", show(&m), j)
        }
        SerKind::Map => {
            let w: BTreeMap<String, bool> = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
            let e: BTreeMap<String, bool> = m.iter().map(|d| (info.names[info.discr.binary_search(d).unwrap()].to_string(), true)).collect();
            ensure!(w == e, "{} is {} in JSON", show(&m), j)
        }
    }
    // binary sizes follow the announced type
    if let SerKind::Int(w) = info.ser {
        let b = bincode::serialize(&s).map_err(|e| e.to_string())?;
        ensure!(b.len() == w as usize / 8, "{} has {} bytes in bincode, expected {}", show(&m), b.len(), w / 8);
    }
    Ok(())
}
