//! Derived code and macros work in any crate, scope and feature set.
use crate::driver::{Case, Check, Expect, Item};
use crate::engine::{Module, Settings};
use crate::pdef::{self, PDef, Place};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21 {
    pub def: PDef,
    pub lib: usize,
    pub edition: usize,
    /// 0 plain, 1 crate_name, 2 renamed in the manifest, 3 in the manifest under its own name
    pub rename: u8,
    pub no_std: bool,
    /// module without the implicit prelude
    pub no_prelude: bool,
    /// documentation and lints instead of odd names
    pub strict: bool,
    /// indices into SHADOWS
    pub shadows: Vec<u16>,
    /// how the derive is named
    pub import: u8,
    pub consts: Vec<(u8, Vec<u16>)>,
}

/// every set of features that makes a difference: std contains alloc and pmc
const LIBS: [&str; 10] = [
    "base", "serde", "alloc", "serde-alloc", "pmc", "std", "full", "serde-pmc", "alloc-pmc", "std-serde",
];
/// without proc-macro-crate
const WITHOUT_PMC: usize = 4;

fn feature(lib: &str, x: &str) -> bool {
    lib == "full" || lib.split('-').any(|y| y == x) || (x != "serde" && lib.split('-').any(|y| y == "std"))
}
const EDITIONS: [&str; 4] = ["2015", "2018", "2021", "2024"];

/// Items of the user's: (namespace, name, text). T types and modules, V values, M macros, X traits with methods for everything.
pub const SHADOWS: &[(&str, &str, &str)] = &[
    ("T", "Option", "pub struct Option;"),
    ("T", "Result", "pub enum Result { Oops }"),
    ("T", "Result", "pub type Result<T> = ::core::result::Result<T, u8>;"),
    ("TV", "None", "pub struct None;"),
    ("V", "None", "pub const None: u8 = 1;"),
    ("V", "Some", "pub fn Some(_: u8) -> u8 { 3 }"),
    ("TV", "Ok", "pub struct Ok(pub u8);"),
    ("V", "Err", "pub static Err: u8 = 4;"),
    ("TV", "Err", "pub struct Err { pub x: u8 }"),
    ("T", "Vec", "pub struct Vec<T>(pub T);"),
    ("T", "String", "pub type String = u8;"),
    ("T", "Box", "pub struct Box;"),
    ("T", "Copy", "pub trait Copy { fn copy(&self) -> u8; }"),
    ("T", "Clone", "pub trait Clone {}"),
    ("T", "Clone", "pub struct Clone;"),
    ("T", "PartialEq", "pub trait PartialEq<R> { fn eq(&self, _: R) -> u8 { 3 } }"),
    ("T", "Eq", "pub mod Eq {}"),
    ("T", "Into", "pub trait Into<X> { fn into(self) -> X; }"),
    ("T", "From", "pub trait From { const FROM: u8; }"),
    ("T", "Iterator", "pub struct Iterator;"),
    ("T", "IntoIterator", "pub trait IntoIterator {}"),
    ("T", "Default", "pub enum Default { Default }"),
    ("T", "Send", "pub trait Send {}"),
    ("T", "Sync", "pub struct Sync;"),
    ("T", "Sized", "pub trait Sized_ {} pub use self::Sized_ as Sized;"),
    ("T", "Drop", "pub struct Drop;"),
    ("T", "Fn", "pub trait Fn {}"),
    ("T", "Hash", "pub struct Hash;"),
    ("T", "Debug", "pub trait Debug {}"),
    ("T", "Display", "pub trait Display {}"),
    ("T", "Formatter", "pub struct Formatter;"),
    ("T", "Sub", "pub trait Sub {}"),
    ("T", "BitAnd", "pub struct BitAnd;"),
    ("T", "BitOr", "pub trait BitOr<T> {}"),
    ("T", "BitXor", "pub mod BitXor {}"),
    ("T", "Not", "pub trait Not { type Output; }"),
    ("T", "EnumSet", "pub struct EnumSet<T>(pub T);"),
    ("T", "EnumSet", "pub mod EnumSet {}"),
    ("T", "EnumSetTypeWithRepr", "pub trait EnumSetTypeWithRepr {}"),
    ("T", "EnumSetTypePrivate", "pub trait EnumSetTypePrivate {}"),
    ("T", "EnumSetTypeRepr", "pub trait EnumSetTypeRepr {}"),
    ("T", "ArrayRepr", "pub struct ArrayRepr;"),
    ("T", "Visitor", "pub trait Visitor {}"),
    ("T", "Serialize", "pub trait Serialize {}"),
    ("T", "Serializer", "pub struct Serializer;"),
    ("T", "Deserialize", "pub trait Deserialize<'de> {}"),
    ("T", "Deserializer", "pub struct Deserializer;"),
    ("T", "SerializeSeq", "pub trait SerializeSeq {}"),
    ("T", "SerializeMap", "pub struct SerializeMap;"),
    ("T", "SeqAccess", "pub trait SeqAccess {}"),
    ("T", "MapAccess", "pub trait MapAccess {}"),
    ("T", "Error", "pub struct Error;"),
    ("T", "Error", "pub trait Error { fn custom(_: u8) -> u8 { 1 } }"),
    ("T", "Output", "pub struct Output;"),
    ("T", "Repr", "pub type Repr = ();"),
    ("T", "Value", "pub struct Value;"),
    ("T", "Self_", "pub struct Self_;"),
    ("T", "T", "pub struct T;"),
    ("T", "O", "pub struct O;"),
    ("T", "S", "pub struct S;"),
    ("T", "D", "pub struct D;"),
    ("T", "A", "pub struct A { pub a: u8 }"),
    ("T", "core", "pub mod core {}"),
    ("T", "core", "pub mod core { pub mod result {} pub mod ops { pub trait Sub {} } pub mod convert {} }"),
    ("T", "std", "pub mod std { pub mod result {} }"),
    ("T", "alloc", "pub mod alloc {}"),
    ("T", "serde", "pub mod serde { pub trait Serialize {} }"),
    ("T", "serde2", "pub mod serde2 {}"),
    ("T", "enumset", "pub mod enumset { pub struct EnumSet; }"),
    ("T", "es", "pub mod es {}"),
    ("T", "__internal", "pub mod __internal {}"),
    ("T", "core_export", "pub mod core_export {}"),
    ("T", "macros", "pub mod macros {}"),
    ("V", "drop", "pub fn drop(_: u8) {}"),
    ("V", "size_of", "pub const fn size_of<T>() -> usize { 3 }"),
    ("V", "unreachable_unchecked", "pub fn unreachable_unchecked() {}"),
    ("V", "only", "pub fn only() {}"),
    ("V", "const_union", "pub fn const_union() {}"),
    ("V", "IS_U8", "pub const IS_U8: bool = true;"),
    ("V", "IS_U16", "pub const IS_U16: bool = true;"),
    ("V", "ALL_BITS", "pub const ALL_BITS: u8 = 3;"),
    ("V", "BIT_WIDTH", "pub const BIT_WIDTH: u32 = 3;"),
    ("V", "VARIANT_COUNT", "pub static VARIANT_COUNT: u32 = 3;"),
    ("V", "CONST_HELPER_INSTANCE", "pub const CONST_HELPER_INSTANCE: u8 = 3;"),
    ("M", "panic", "macro_rules! panic { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "write", "macro_rules! write { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "concat", "macro_rules! concat { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "stringify", "macro_rules! stringify { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "matches", "macro_rules! matches { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "assert", "macro_rules! assert { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "unreachable", "macro_rules! unreachable { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "unimplemented", "macro_rules! unimplemented { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "enum_set", "macro_rules! enum_set { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    ("M", "enum_set_union", "macro_rules! enum_set_union { ($($t:tt)*) => { compile_error!(\"captured\") } }"),
    // a trait shadowing a standard one and implemented for everything
    ("T", "Into", "pub trait Into<X>: ::core::marker::Sized { fn into(self) -> u8 { 1 } } impl<Y, X> Into<X> for Y {}"),
    ("T", "Clone", "pub trait Clone { fn clone(&self) -> u8 { 1 } } impl<Y: ?::core::marker::Sized> Clone for Y {}"),
    ("T", "PartialEq", "pub trait PartialEq { fn eq(&self, _: &Self) -> u8 { 1 } fn ne(&self, _: &Self) -> u8 { 1 } } impl<Y> PartialEq for Y {}"),
    ("T", "Not", "pub trait Not: ::core::marker::Sized { fn not(self) -> u8 { 1 } } impl<Y> Not for Y {}"),
    ("T", "BitOr", "pub trait BitOr: ::core::marker::Sized { fn bitor(self, _: Self) -> u8 { 1 } fn bitand(self, _: Self) -> u8 { 1 } fn sub(self, _: Self) -> u8 { 1 } } impl<Y> BitOr for Y {}"),
    ("T", "Iterator", "pub trait Iterator { fn next(&mut self) -> u8 { 1 } fn rev(&mut self) -> u8 { 1 } fn len(&self) -> u8 { 1 } } impl<Y> Iterator for Y {}"),
    ("T", "IntoIterator", "pub trait IntoIterator { fn into_iter(&self) -> u8 { 1 } fn iter(&self) -> u8 { 1 } } impl<Y> IntoIterator for Y {}"),
    ("T", "Default", "pub trait Default { fn default() -> u8 { 1 } fn new() -> u8 { 1 } } impl<Y> Default for Y {}"),
    ("T", "Ext", "pub trait Ext { fn len(&self) -> u8 { 1 } fn union(&self) -> u8 { 1 } fn as_array(&self) {} fn is_some(&self) -> u8 { 2 } fn const_union(&self) {} } impl<Y> Ext for Y {}"),
    // the methods of the traits of serde, and of the sets, by value: they come before those by reference
    ("T", "Written", "pub trait Written: ::core::marker::Sized { fn serialize(self, _: u8) -> u8 { 1 } fn serialize_seq(self, _: u8) -> u8 { 1 } fn serialize_map(self, _: u8) -> u8 { 1 } fn serialize_element(self, _: u8) -> u8 { 1 } fn serialize_entry(self, _: u8) -> u8 { 1 } fn end(self, _: u8) -> u8 { 1 } } impl<Y> Written for Y {}"),
    ("T", "Read", "pub trait Read: ::core::marker::Sized { fn deserialize_seq(self) -> u8 { 1 } fn deserialize_map(self) -> u8 { 1 } fn next_element(self) -> u8 { 1 } fn next_entry(self) -> u8 { 1 } fn custom(_: u8) -> u8 { 1 } fn deserialize(_: u8) -> u8 { 1 } } impl<Y> Read for Y {}"),
    ("T", "Words", "pub trait Words: ::core::marker::Sized { fn len(self, _: u8) -> u8 { 1 } fn as_array(self) -> u8 { 1 } fn as_array_truncated(self) -> u8 { 1 } fn to_u64(self) -> u8 { 1 } fn from_u64(self) -> u8 { 1 } fn write_str(self) -> u8 { 1 } fn write_fmt(self) -> u8 { 1 } } impl<Y> Words for Y {}"),
    ("T", "Refs", "pub trait Refs { fn serialize(&self, _: u8) -> u8 { 1 } fn serialize_element(&mut self, _: u8) -> u8 { 1 } fn serialize_entry(&mut self, _: u8) -> u8 { 1 } fn next_element(&mut self) -> u8 { 1 } fn next_entry(&mut self) -> u8 { 1 } fn write_fmt(&mut self) -> u8 { 1 } } impl<Y: ?::core::marker::Sized> Refs for Y {}"),
];

/// The crate root: no_std, and not disturbed by anything inside the modules.
fn root(krate: &str, edition: &str, lib: &str, no_std: bool) -> String {
    let mut s = String::new();
    if edition == "2015" {
        writeln!(s, "extern crate {krate};").unwrap();
        if !no_std {
            s.push_str("#[allow(unused_extern_crates)] extern crate core;\n");
        }
        if feature(lib, "serde") {
            writeln!(s, "#[allow(unused_extern_crates)] extern crate serde; #[allow(unused_extern_crates)] extern crate serde_json;").unwrap();
        }
    }
    if feature(lib, "std") && lib != "full" {
        s.push_str("#[allow(unused)] mod unused_ {}\n");
    }
    s.push_str("/// the reason\npub type Fail = &'static str;\n");
    let has = |x: &str| feature(lib, x);
    let vec = if has("alloc") {
        "    let v = set.to_vec(); chk!(v.len() * 64 >= width as usize); let mut j = 0; while j < v.len() { chk!(v[j] == model[j]); j += 1; }\n"
    } else {
        ""
    };
    let json = if has("serde") {
        format!("    {{ fn both<X: {0}::EnumSetType>() where {0}::EnumSet<X>: serde::Serialize + for<'de> serde::Deserialize<'de> {{}} both::<E>(); }}\n", krate)
    } else {
        String::new()
    };
    write!(
        s,
        r##"
/// checks an enum
pub fn check<E: {krate}::EnumSetType>(all: &[(E, u32)], idx: fn(E) -> usize, consts: &[({krate}::EnumSet<E>, &[u32])]) -> Result<(), Fail> {bound} {{
    use {krate}::EnumSet;
    macro_rules! chk {{ ($c:expr) => {{ if !$c {{ return Err(stringify!($c)); }} }} }}
    let mut model = [0u64; 40];
    let mut width = 0;
    for x in all {{ model[x.1 as usize / 64] |= 1 << (x.1 % 64); if x.1 + 1 > width {{ width = x.1 + 1; }} }}
    let set = EnumSet::<E>::all();
    chk!(EnumSet::<E>::variant_count() as usize == all.len());
    chk!(EnumSet::<E>::bit_width() == width);
    let mut words = [!0u64; 40];
    set.copy_into_slice(&mut words);
    chk!(words[..] == model[..]);
    chk!(EnumSet::<E>::try_from_slice(&model) == Some(set));
    let mut last = None;
    let mut n = 0;
    for x in set {{ let v = all[idx(x)].1; chk!(last.map_or(true, |l| l < v)); last = Some(v); n += 1; }}
    chk!(n == all.len());
{vec}    for (i, x) in all.iter().enumerate() {{
        let one = EnumSet::only(x.0);
        let mut words = [!0u64; 40];
        one.copy_into_slice(&mut words);
        let mut want = [0u64; 40];
        want[x.1 as usize / 64] = 1 << (x.1 % 64);
        chk!(words[..] == want[..]);
        chk!(one.iter().map(idx).eq(core::iter::once(i)));
        chk!(one.contains(x.0) && one.len() == 1 && one == x.0 && (one | x.0) == one && (one - x.0).is_empty());
        for y in all {{ chk!((x.0 == y.0) == (x.1 == y.1)); }}
    }}
    for c in consts {{
        let mut words = [!0u64; 40];
        c.0.copy_into_slice(&mut words);
        let mut want = [0u64; 40];
        for v in c.1 {{ want[*v as usize / 64] |= 1 << (v % 64); }}
        chk!(words[..] == want[..]);
    }}
    Ok(())
}}
"##,
        bound = ""
    )
    .unwrap();
    if !no_std && has("serde") {
        write!(
            s,
            r##"
/// checks the serialized form
pub fn json<E: {krate}::EnumSetType>(all: &[(E, u32)]) -> Result<(), Fail> where {krate}::EnumSet<E>: serde::Serialize + for<'de> serde::Deserialize<'de> {{
    let mut sets = std::vec![{krate}::EnumSet::<E>::new(), {krate}::EnumSet::<E>::all()];
    for x in all {{ sets.push({krate}::EnumSet::only(x.0)); sets.push({krate}::EnumSet::all() - x.0); }}
    for s in sets {{
        let t = match serde_json::to_string(&s) {{ Ok(t) => t, Err(_) => return Err("does not serialize") }};
        match serde_json::from_str::<{krate}::EnumSet<E>>(&t) {{ Ok(x) if x == s => {{}} Ok(_) => return Err("reads back another set"), Err(_) => return Err("does not read back") }}
    }}
    Ok(())
}}
"##
        )
        .unwrap();
    }
    let _ = json;
    s
}

impl C21 {
    fn lib(&self) -> &'static str {
        LIBS[self.lib % LIBS.len()]
    }
    fn edition(&self) -> &'static str {
        EDITIONS[self.edition % EDITIONS.len()]
    }
    fn rename(&self) -> u8 {
        match self.rename % 4 {
            2 | 3 if !feature(self.lib(), "pmc") => 1,
            // the manifest of a crate of the 2015 edition changes nothing else
            x => x,
        }
    }
    fn krate(&self) -> &'static str {
        match self.rename() {
            1 => "es",
            2 => "renamed_set",
            _ => "enumset",
        }
    }
    fn serde(&self) -> bool {
        feature(self.lib(), "serde")
    }
    fn module(&self) -> String {
        let k = self.krate();
        let mut d = self.def.clone();
        d.options.retain(|x| !x.starts_with("crate_name"));
        if self.rename() == 1 {
            d.options.push("crate_name = \"es\"".into());
        }
        let n = d.name.clone();
        let no_prelude = self.no_prelude && d.place != Place::Local;
        // the user's items, none of them the enum's namesake
        let mut items = String::new();
        let mut taken: HashSet<String> = HashSet::new();
        taken.insert(format!("T{}", n.trim_start_matches("r#")));
        let mut macros = String::new();
        if !self.strict {
            for i in &self.shadows {
                let (ns, name, text) = SHADOWS[*i as usize % SHADOWS.len()];
                let keys: Vec<String> = ns.chars().map(|c| format!("{}{}", c, name)).collect();
                if keys.iter().any(|x| taken.contains(x)) {
                    continue;
                }
                // the derive's own path in editions where it goes through the scope
                if ns == "M" && d.place == Place::Macro && name == "mk" {
                    continue;
                }
                taken.extend(keys);
                if text.contains("_ {} pub use self::") && d.place == Place::Local {
                    continue;
                }
                if ns == "M" {
                    if !no_prelude {
                        macros.push_str(text);
                        macros.push('\n');
                    }
                } else {
                    items.push_str(text);
                    items.push('\n');
                }
            }
        }
        let user_macros = !macros.is_empty();
        let mut s = String::new();
        if no_prelude {
            s.push_str("#![no_implicit_prelude]\n");
        }
        s.push_str("#![allow(unused_macros)]\n");
        let mut head = String::new();
        // names that the scope may have changed are not used below
        let derive = match self.import % 4 {
            0 if d.place != Place::Local && self.edition() != "2015" && !taken.contains("TEnumSetType") => {
                head.push_str(&format!("#[allow(unused_imports)] use ::{}::EnumSetType;\n", k));
                "EnumSetType".to_string()
            }
            1 if d.place != Place::Local => {
                head.push_str(&format!("use ::{}::EnumSetType as Derive__;\n", k));
                "Derive__".to_string()
            }
            _ => format!("::{}::EnumSetType", k),
        };
        let core_derive = if no_prelude { "::core::prelude::v1::derive" } else { "derive" };
        d.derives = vec![derive];
        let mut def = d.clone();
        // the enum's own place
        def.place = if d.place == Place::Macro { Place::Macro } else { Place::Module };
        let supply = def.no_super;
        def.no_super = false;
        if self.strict {
            for v in &mut def.variants {
                v.attrs.insert(0, "/// variant".into());
            }
            def.before.insert(0, "/// enum".into());
        }
        let mut text = def.text();
        if no_prelude {
            text = text.replace("#[derive(", &format!("#[{}(", core_derive));
        }
        let live = d.live();
        let mut b = String::new();
        if supply {
            writeln!(b, "impl ::core::marker::Copy for {n} {{}} impl ::core::clone::Clone for {n} {{ fn clone(&self) -> Self {{ *self }} }}\nimpl ::core::cmp::PartialEq for {n} {{ fn eq(&self, other__: &Self) -> bool {{ {} }} }} impl ::core::cmp::Eq for {n} {{}}", if live.is_empty() { "let _ = other__; match *self {}" } else { "*self as u64 == *other__ as u64" }).unwrap();
        }
        if self.serde() && d.list_or_map {
            writeln!(b, "impl ::serde::Serialize for {n} {{ fn serialize<Ser__: ::serde::Serializer>(&self, s__: Ser__) -> ::core::result::Result<Ser__::Ok, Ser__::Error> {{ ::serde::Serializer::serialize_u32(s__, index__(*self) as u32) }} }}").unwrap();
            write!(b, "impl<'de> ::serde::Deserialize<'de> for {n} {{ fn deserialize<De__: ::serde::Deserializer<'de>>(d__: De__) -> ::core::result::Result<Self, De__::Error> {{ match <u32 as ::serde::Deserialize>::deserialize(d__)? {{ ").unwrap();
            for (i, v) in live.iter().enumerate() {
                write!(b, "{} => ::core::result::Result::Ok({}::{}), ", i, n, v.name).unwrap();
            }
            writeln!(b, "_ => ::core::result::Result::Err(::serde::de::Error::custom(\"unknown\")), }} }} }}").unwrap();
        }
        write!(b, "fn index__(e__: {n}) -> usize {{ match e__ {{ ").unwrap();
        for (i, v) in live.iter().enumerate() {
            write!(b, "{n}::{} => {}, ", v.name, i).unwrap();
        }
        writeln!(b, "}} }}").unwrap();
        // the macros, in items
        let mut table = String::new();
        if !live.is_empty() {
            let mut done: Vec<(String, Vec<u64>)> = vec![];
            let all: Vec<u64> = live.iter().map(|x| x.value).collect();
            for (i, (op, args)) in self.consts.iter().enumerate() {
                let mut a: Vec<(String, Vec<u64>)> = args
                    .iter()
                    .map(|x| {
                        let x = *x as usize;
                        if x % 3 == 0 && !done.is_empty() {
                            done[x / 3 % done.len()].clone()
                        } else {
                            let v = live[x / 3 % live.len()];
                            (format!("{}::{}", n, v.name), vec![v.value])
                        }
                    })
                    .collect();
                if a.is_empty() && op % 7 != 6 {
                    a.push((format!("{}::{}", n, live[0].name), vec![live[0].value]));
                }
                let list = |sep: &str| a.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep);
                let fold = |f: &dyn Fn(bool, bool) -> bool| -> Vec<u64> {
                    all.iter()
                        .copied()
                        .filter(|x| {
                            let mut t = a[0].1.contains(x);
                            for y in &a[1..] {
                                t = f(t, y.1.contains(x));
                            }
                            t
                        })
                        .collect()
                };
                let (m, inner, v) = match op % 7 {
                    0 => ("enum_set", list(" | "), fold(&|a, b| a | b)),
                    1 => ("enum_set_union", list(", "), fold(&|a, b| a | b)),
                    2 => ("enum_set_intersection", list(", "), fold(&|a, b| a & b)),
                    3 => ("enum_set_difference", list(", "), fold(&|a, b| a & !b)),
                    4 => ("enum_set_symmetric_difference", list(", "), fold(&|a, b| a ^ b)),
                    5 => ("enum_set_complement", a[0].0.clone(), all.iter().copied().filter(|x| !a[0].1.contains(x)).collect()),
                    _ => ("enum_set", String::new(), vec![]),
                };
                writeln!(b, "const C{i}__: ::{k}::EnumSet<{n}> = ::{k}::{m}!({inner});").unwrap();
                write!(table, "(C{i}__, &[{}]), ", v.iter().map(|x| format!("{}u32", x)).collect::<Vec<_>>().join(", ")).unwrap();
                done.push((format!("C{i}__"), v));
            }
        }
        let values = live.iter().map(|v| format!("({n}::{}, {}u32)", v.name, v.value)).collect::<Vec<_>>().join(", ");
        writeln!(b, "let all__: &[({n}, u32)] = &[{values}];").unwrap();
        if self.serde() && !self.no_std {
            writeln!(b, "crate::json::<{n}>(all__)?;").unwrap();
        }
        writeln!(b, "crate::check::<{n}>(all__, index__, &[{table}])").unwrap();
        // statements last: everything but the enum is inside the function
        let split = b.find("let all__").unwrap();
        let (decls, stmts) = b.split_at(split);
        let doc = if self.strict { "/// runs\n" } else { "" };
        let allow = if self.lib().starts_with("std") { "#[allow(deprecated)] " } else { "" };
        let _ = user_macros;
        if d.place == Place::Local {
            writeln!(s, "{head}{doc}{allow}pub fn run() -> ::core::result::Result<(), crate::Fail> {{\n{macros}{items}{text}{decls}{stmts}}}").unwrap();
        } else {
            writeln!(s, "{head}{macros}{items}{text}{decls}{doc}pub fn run() -> ::core::result::Result<(), crate::Fail> {{\n{stmts}}}").unwrap();
        }
        s
    }
}

impl Case for C21 {
    fn items(&self) -> Vec<Item> {
        let mut attrs = String::new();
        if self.strict {
            attrs.push_str("#![deny(warnings, rust_2018_idioms, missing_docs, unused)]\n#![allow(missing_docs, non_camel_case_types, uncommon_codepoints)]\n#![forbid(unsafe_code)]\n");
        } else {
            attrs.push_str("#![deny(warnings)]\n#![allow(dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, unused_imports, hidden_glob_reexports)]\n");
        }
        // the user's own items and uses of deprecated variants
        attrs.push_str("#![allow(deprecated_in_future, mixed_script_confusables, confusable_idents)]\n");
        let mut silent = true;
        if self.lib().starts_with("std") {
            attrs.push_str("#![allow(deprecated)]\n");
            silent = false;
        }
        if self.strict {
            attrs = attrs.replace("#![allow(missing_docs, ", "#![allow(");
            attrs.insert_str(0, "//! A crate.\n");
        }
        let k = self.krate();
        vec![Item {
            what: "the module",
            module: Module {
                settings: Settings {
                    lib: self.lib(),
                    edition: self.edition(),
                    extern_name: k.to_string(),
                    root: root(k, self.edition(), self.lib(), self.no_std),
                    attrs,
                    no_std: self.no_std,
                    library: true,
                    manifest: self.rename() >= 2,
                    batch: 6,
                    check_only: false,
                },
                source: self.module(),
            },
            expect: if silent { Expect::Silent } else { Expect::Runs },
        }]
    }
    fn nontrivial(&self) -> bool {
        self.def.live().len() >= 1 && (!self.shadows.is_empty() || self.strict || pdef::HOSTILE_NAMES.contains(&self.def.name.as_str()))
    }
    fn labels(&self) -> Vec<String> {
        let mut v = vec![
            format!("features {}", self.lib()),
            format!("edition {}", self.edition()),
            format!("rename {}", ["none", "crate_name", "in the manifest", "in the manifest, same name"][self.rename() as usize]),
            format!("place {:?}", self.def.place),
        ];
        if self.no_std {
            v.push("no_std".into());
        }
        if self.no_prelude {
            v.push("no_implicit_prelude".into());
        }
        if self.strict {
            v.push("strict lints".into());
        }
        v
    }
}

/// The few (edition, features, name, no_std) combinations one run compiles, so that crates are shared.
fn worlds(cfg: &vrun::Cfg) -> Vec<(usize, usize, u8, bool)> {
    let mut all = vec![];
    for lib in 0..LIBS.len() {
        for edition in 0..EDITIONS.len() {
            for rename in 0..4u8 {
                if rename >= 2 && lib < WITHOUT_PMC {
                    continue;
                }
                for no_std in [false, true] {
                    all.push((lib, edition, rename, no_std));
                }
            }
        }
    }
    if cfg.thorough {
        return all;
    }
    // every pair of values, differing by seed
    let mut out: Vec<(usize, usize, u8, bool)> = vec![];
    let k = cfg.seed as usize;
    for lib in 0..LIBS.len() {
        for edition in 0..EDITIONS.len() {
            let rename = ((lib + edition + k) % if lib < WITHOUT_PMC { 2 } else { 4 }) as u8;
            out.push((lib, edition, rename, (lib + edition / 2 + k) % 2 == 0));
        }
    }
    out
}

pub fn check(cfg: &vrun::Cfg) -> Check<C21> {
    let worlds = worlds(cfg);
    let def = prop_oneof![4 => pdef::def(true, 40, 400), 1 => pdef::def(false, 20, 400)];
    let random = (
        def,
        prop::sample::select(worlds.clone()),
        prop_oneof![6 => Just(0u8), 2 => Just(1), 2 => Just(2)],
        prop_oneof![4 => prop::collection::vec(any::<u16>(), 0..12), 2 => prop::collection::vec(any::<u16>(), 12..60)],
        any::<u8>(),
        prop::collection::vec((any::<u8>(), prop::collection::vec(any::<u16>(), 0..6)), 0..8),
        any::<bool>(),
    )
        .prop_map(|(mut def, (lib, edition, rename, no_std), mode, shadows, import, consts, empty)| {
            if empty && import < 20 {
                def.variants.clear();
                def.rust_repr = None;
            }
            def.derives = vec![];
            tidy(&mut def);
            C21 { def, lib, edition, rename, no_std, no_prelude: mode == 1, strict: mode == 2, shadows, import, consts }
        });
    let mut fixed = vec![];
    // every world with a plain enum and with everything shadowed at once
    for (i, (lib, edition, rename, no_std)) in worlds.iter().enumerate() {
        for (j, vals) in [&[0u64, 1, 5][..], &[], &[3, 64, 130]].iter().enumerate() {
            let mut def = PDef::simple("Enum", vals);
            def.place = [Place::Module, Place::Local, Place::Macro][(i + j) % 3];
            if i % 4 == 1 {
                def.options.push("serialize_repr = \"list\"".into());
                def.list_or_map = true;
            } else if i % 4 == 3 {
                def.options.push("serialize_repr = \"map\"".into());
                def.list_or_map = true;
            } else if i % 4 == 2 {
                def.options.push("serialize_deny_unknown".into());
            }
            let n = SHADOWS.len() as u16;
            let shadows = match (i + j) % 3 {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                _ => vec![],
            };
            let consts = (0..7u8).map(|x| (x, vec![1u16, 4, 7, 3])).collect();
            fixed.push(C21 {
                def,
                lib: *lib,
                edition: *edition,
                rename: *rename,
                no_std: *no_std,
                no_prelude: (i + j) % 4 == 3,
                strict: (i + j) % 3 == 2,
                shadows,
                import: (i + j) as u8,
                consts,
            });
        }
    }
    // every hostile name once as the enum's and as a variant's
    let w = worlds[cfg.seed as usize % worlds.len()];
    for (i, name) in pdef::HOSTILE_NAMES.iter().enumerate() {
        let mut def = PDef::simple(name, &[0, 1, 2]);
        def.variants[0].name = pdef::HOSTILE_NAMES[(i + 1) % pdef::HOSTILE_NAMES.len()].into();
        def.variants[1].name = name.to_string();
        if i % 3 == 1 {
            def.options.push("repr = \"array\"".into());
        }
        if i % 4 == 3 {
            def.options.push("serialize_repr = \"array\"".into());
        }
        if i % 4 == 2 {
            def.options.push("serialize_repr = \"map\"".into());
            def.list_or_map = true;
        }
        def.derives = vec![];
        let (lib, _, _, _) = w;
        let _ = lib;
        fixed.push(C21 {
            def,
            lib: [1, 0, 5][i % 3],
            edition: 1 + i % 3,
            rename: 0,
            no_std: false,
            no_prelude: false,
            strict: false,
            shadows: vec![],
            import: 2,
            consts: (0..7u8).map(|x| (x, vec![1u16, 4, 7, 3])).collect(),
        });
    }
    Check {
        property: "C21",
        rule: "random enums (names of generated code and prelude for enum and variants, local, written by macros, in modules without prelude) next to random items that shadow standard and internal names, under random feature sets, editions, names of the crate, std and no_std, with warnings denied; the module must compile without a warning and pass the bit-for-bit check, that of its constants and the JSON round trip where there is serde; non-trivial: at least one variant and either shadowing items, strict lints or an enum named like generated code",
        fixed,
        random: random.boxed(),
        quick: 800,
        thorough: 9000,
        assumptions: vec!["primitive type names (u8, u64, ...) are not shadowed, and constants or unit structs with the lower-case names of local variables of the generated code are not declared".to_string()],
    }
}

/// Takes out what makes the user's own code warn.
fn tidy(d: &mut PDef) {
    d.before.retain(|x| x.starts_with("///"));
    d.after.retain(|x| !x.contains("clippy") && !x.contains("must_use") && !x.contains("non_exhaustive"));
    for v in &mut d.variants {
        v.attrs.retain(|x| !x.contains("deprecated"));
    }
}
