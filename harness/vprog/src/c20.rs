//! The derive implements exactly the traits its options promise.
use crate::c16;
use crate::driver::{Case, Check, Expect, Item};
use crate::engine::{Module, Settings};
use crate::pdef::{self, PDef, Place};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C20 {
    pub def: PDef,
    /// with no_super_impls: 0 derives, 1 impls by hand, 2 an equality of the user's own liking
    pub supplied: u8,
    /// with no_ops: the user's own operators
    pub own_ops: bool,
    /// traits derived next to it
    pub extra: Vec<String>,
    pub serde: bool,
}

const PROBES: &[(&str, &str)] = &[
    ("Copy", "::core::marker::Copy"),
    ("Clone", "::core::clone::Clone"),
    ("PartialEq", "::core::cmp::PartialEq"),
    ("Eq", "::core::cmp::Eq"),
    ("Debug", "::core::fmt::Debug"),
    ("Display", "::core::fmt::Display"),
    ("Hash", "::core::hash::Hash"),
    ("PartialOrd", "::core::cmp::PartialOrd"),
    ("Ord", "::core::cmp::Ord"),
    ("Default", "::core::default::Default"),
    ("Send", "::core::marker::Send"),
    ("Sync", "::core::marker::Sync"),
    ("Unpin", "::core::marker::Unpin"),
    ("Not", "::core::ops::Not"),
    ("SubSelf", "::core::ops::Sub"),
    ("BitAndSelf", "::core::ops::BitAnd"),
    ("BitOrSelf", "::core::ops::BitOr"),
    ("BitXorSelf", "::core::ops::BitXor"),
    ("AddSelf", "::core::ops::Add"),
    ("BitOrAssignSelf", "::core::ops::BitOrAssign"),
    ("BitAndAssignSelf", "::core::ops::BitAndAssign"),
    ("SubAssignSelf", "::core::ops::SubAssign"),
    ("EnumSetType", "enumset::EnumSetType"),
    ("WithRepr", "enumset::EnumSetTypeWithRepr"),
    ("Error", "::std::error::Error"),
    ("IntoIterator", "::core::iter::IntoIterator"),
    ("Iterator", "::core::iter::Iterator"),
    ("Neg", "::core::ops::Neg"),
    ("MulSelf", "::core::ops::Mul"),
    ("DivSelf", "::core::ops::Div"),
    ("RemSelf", "::core::ops::Rem"),
    ("ShlSelf", "::core::ops::Shl"),
    ("ShrSelf", "::core::ops::Shr"),
    ("AddAssignSelf", "::core::ops::AddAssign"),
    ("BitXorAssignSelf", "::core::ops::BitXorAssign"),
    ("FromStr", "::core::str::FromStr"),
    ("Deref", "::core::ops::Deref"),
    ("LowerHex", "::core::fmt::LowerHex"),
    ("UpperHex", "::core::fmt::UpperHex"),
    ("Binary", "::core::fmt::Binary"),
    ("Octal", "::core::fmt::Octal"),
    ("SumSelf", "::core::iter::Sum"),
    ("ProductSelf", "::core::iter::Product"),
    ("FromIterSelf", "::core::iter::FromIterator<T>"),
    ("ExtendSelf", "::core::iter::Extend<T>"),
    ("ToString", "::std::string::ToString"),
];
/// conversions and comparisons the derive does not promise, for each of `OTHER`
const FOREIGN: &[(&str, &str)] = &[
    ("IntoX", "::core::convert::Into"),
    ("FromX", "::core::convert::From"),
    ("TryFromX", "::core::convert::TryFrom"),
    ("TryIntoX", "::core::convert::TryInto"),
    ("EqX", "::core::cmp::PartialEq"),
    ("OrdX", "::core::cmp::PartialOrd"),
    ("AndX", "::core::ops::BitAnd"),
    ("OrX", "::core::ops::BitOr"),
    ("XorX", "::core::ops::BitXor"),
    ("SubX", "::core::ops::Sub"),
    ("AddX", "::core::ops::Add"),
    ("AsRefX", "::core::convert::AsRef"),
];
const OTHER: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "isize", "bool", "char", "()", "&'static str", "::std::string::String"];
/// traits with a parameter: the set of the probed enum
const PROBES2: &[(&str, &str)] = &[
    ("EqSet", "::core::cmp::PartialEq"),
    ("SubSet", "::core::ops::Sub"),
    ("AndSet", "::core::ops::BitAnd"),
    ("OrSet", "::core::ops::BitOr"),
    ("XorSet", "::core::ops::BitXor"),
    ("OrdSet", "::core::cmp::PartialOrd"),
    ("IntoSet", "::core::convert::Into"),
    ("FromSet", "::core::convert::From"),
];

fn root() -> String {
    let mut s = c16::ROOT.to_string();
    s.push_str("pub mod probe {\n    pub trait No { const HAS: bool = false; }\n");
    for (n, t) in PROBES {
        writeln!(s, "    pub struct {n}<T>(::core::marker::PhantomData<T>); impl<T> No for {n}<T> {{}} impl<T: {t}> {n}<T> {{ pub const HAS: bool = true; }}").unwrap();
    }
    for (n, t) in PROBES2 {
        writeln!(s, "    pub struct {n}<T, U>(::core::marker::PhantomData<(T, U)>); impl<T, U> No for {n}<T, U> {{}} impl<U, T: {t}<U>> {n}<T, U> {{ pub const HAS: bool = true; }}").unwrap();
    }
    for (n, t) in FOREIGN {
        writeln!(s, "    pub struct {n}<T, U>(::core::marker::PhantomData<(T, U)>); impl<T, U> No for {n}<T, U> {{}} impl<U, T: {t}<U>> {n}<T, U> {{ pub const HAS: bool = true; }}").unwrap();
    }
    s.push_str("}\npub fn has(what: &str, got: bool, want: bool) -> Result<(), Fail> { if got == want { Ok(()) } else { Err(format!(\"{} is {}implemented\", what, if got { \"\" } else { \"not \" })) } }\n");
    s.push_str(r##"
/// The sets behave whatever the options are.
pub fn sets<E: enumset::EnumSetType>(all: &[E], idx: fn(E) -> usize) -> Result<(), Fail> {
    use enumset::EnumSet;
    let n = all.len().min(9);
    let all = &all[..n];
    let mut seed = 12345u32;
    let mut sets = vec![(EnumSet::<E>::new(), 0u32)];
    for _ in 0..12 {
        seed = seed.wrapping_mul(1103515245).wrapping_add(12345);
        let bits = (seed >> 8) & ((1 << n) - 1);
        let mut s = EnumSet::new();
        for i in 0..n { if bits >> i & 1 == 1 && !s.insert(all[i]) { return Err("insert of an absent variant gives false".into()); } }
        sets.push((s, bits));
    }
    let bits = |s: EnumSet<E>| s.iter().fold(0u32, |a, v| a | 1 << idx(v));
    for (a, x) in &sets {
        if bits(*a) != *x || a.len() != x.count_ones() as usize { return Err(format!("a set of {:b} holds {:b}", x, bits(*a))); }
        for i in 0..n {
            if a.contains(all[i]) != (x >> i & 1 == 1) { return Err(format!("contains is wrong for {} in {:b}", i, x)); }
            if (*a == all[i]) != (*x == 1 << i) { return Err(format!("a set of {:b} compared with variant {}", x, i)); }
            let mut c = *a;
            if c.remove(all[i]) != (x >> i & 1 == 1) || bits(c) != x & !(1 << i) { return Err(format!("remove is wrong for {} in {:b}", i, x)); }
            if bits(*a | all[i]) != x | 1 << i || bits(*a & all[i]) != x & 1 << i || bits(*a ^ all[i]) != x ^ 1 << i || bits(*a - all[i]) != x & !(1 << i) {
                return Err(format!("an operator is wrong for {:b} and variant {}", x, i));
            }
        }
        for (b, y) in &sets {
            if bits(*a | *b) != x | y || bits(*a & *b) != x & y || bits(*a ^ *b) != x ^ y || bits(*a - *b) != x & !y {
                return Err(format!("an operator is wrong for {:b} and {:b}", x, y));
            }
            if (a == b) != (x == y) || (a.cmp(b) == core::cmp::Ordering::Equal) != (x == y) || a.is_subset(*b) != (x & !y == 0) || a.is_disjoint(*b) != (x & y == 0) {
                return Err(format!("a comparison is wrong for {:b} and {:b}", x, y));
            }
        }
    }
    Ok(())
}
"##);
    s
}

impl C20 {
    fn source(&self) -> String {
        let mut d = self.def.clone();
        let n = d.name.clone();
        let manual = d.no_super && self.supplied > 0;
        if manual {
            d.no_super = false; // the text must not derive them
        }
        let extra: Vec<&str> = self.extra.iter().map(|x| x.as_str()).filter(|x| *x != "Display").collect();
        // the user's own equality goes with neither
        let extra: Vec<&str> = extra.into_iter().collect();
        if !extra.is_empty() {
            d.derives.push(extra.join(", "));
        }
        if self.serde && d.list_or_map {
            d.derives.push("serde_derive::Serialize, serde_derive::Deserialize".into());
        }
        let live = d.live();
        let mut s = String::new();
        if manual {
            let eq = match (live.is_empty(), self.supplied) {
                (true, _) => "match *self {}",
                (_, 1) => "*self as u64 == *other as u64",
                _ => "true",
            };
            writeln!(s, "impl ::core::marker::Copy for {n} {{}} impl ::core::clone::Clone for {n} {{ fn clone(&self) -> Self {{ *self }} }}\nimpl ::core::cmp::PartialEq for {n} {{ fn eq(&self, other: &Self) -> bool {{ {eq} }} }} impl ::core::cmp::Eq for {n} {{}}").unwrap();
        }
        if self.extra.iter().any(|x| x == "Display") {
            writeln!(s, "impl ::core::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.write_str(\"x\") }} }}").unwrap();
        }
        let own = d.no_ops && self.own_ops;
        if own {
            for (t, f) in [("Sub", "sub"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor")] {
                writeln!(s, "impl ::core::ops::{t} for {n} {{ type Output = &'static str; fn {f}(self, _: {n}) -> &'static str {{ {f:?} }} }}").unwrap();
                writeln!(s, "impl ::core::ops::{t}<enumset::EnumSet<{n}>> for {n} {{ type Output = u8; fn {f}(self, _: enumset::EnumSet<{n}>) -> u8 {{ 77 }} }}").unwrap();
            }
            writeln!(s, "impl ::core::ops::Not for {n} {{ type Output = bool; fn not(self) -> bool {{ true }} }}").unwrap();
            writeln!(s, "impl ::core::cmp::PartialEq<enumset::EnumSet<{n}>> for {n} {{ fn eq(&self, _: &enumset::EnumSet<{n}>) -> bool {{ false }} }}").unwrap();
        }
        // the checks of C16, under another name
        s.push_str(&c16::body(&d).replace("pub fn run()", "fn bits__()"));
        let mut r = String::new();
        writeln!(r, "    #[allow(unused_imports)] use crate::probe::{{self, No as _}};").unwrap();
        let has = |x: &str| self.extra.iter().any(|y| y == x);
        let ops = !d.no_ops || own;
        for (p, t) in PROBES {
            let want = match *p {
                "Copy" | "Clone" | "PartialEq" | "Eq" | "Send" | "Sync" | "Unpin" | "EnumSetType" => true,
                "Debug" | "Display" | "Hash" | "PartialOrd" | "Ord" => has(p),
                "Not" | "SubSelf" | "BitAndSelf" | "BitOrSelf" | "BitXorSelf" => ops,
                "WithRepr" => d.int_repr.is_some(),
                // comes with Display
                "ToString" => has("Display"),
                _ => false,
            };
            writeln!(r, "    crate::has({:?}, probe::{p}::<{n}>::HAS, {want})?;", format!("{} for the enum", t.trim_start_matches("::"))).unwrap();
        }
        for (p, t) in PROBES2 {
            let want = match *p {
                "EqSet" | "SubSet" | "AndSet" | "OrSet" | "XorSet" => ops,
                "IntoSet" => true,
                _ => false,
            };
            writeln!(r, "    crate::has({:?}, probe::{p}::<{n}, enumset::EnumSet<{n}>>::HAS, {want})?;", format!("{}<EnumSet> for the enum", t.trim_start_matches("::"))).unwrap();
        }
        for (p, t) in FOREIGN {
            for o in OTHER {
                // every type converts fallibly into what it converts into, and into itself
                writeln!(r, "    crate::has({:?}, probe::{p}::<{n}, {o}>::HAS, false)?;", format!("{}<{}> for the enum", t.trim_start_matches("::"), o)).unwrap();
            }
        }
        for p in ["Copy", "Clone", "PartialEq", "Eq", "Send", "Sync", "Hash", "PartialOrd", "Ord", "Default", "Not", "SubSelf", "BitAndSelf", "BitOrSelf", "BitXorSelf", "BitOrAssignSelf", "BitAndAssignSelf", "SubAssignSelf", "IntoIterator"] {
            writeln!(r, "    crate::has(\"{p} for the set\", probe::{p}::<enumset::EnumSet<{n}>>::HAS, true)?;").unwrap();
        }
        for p in ["Clone", "Send", "Sync", "Unpin", "Iterator", "IntoIterator"] {
            writeln!(r, "    crate::has(\"{p} for the iterator\", probe::{p}::<enumset::EnumSetIter<{n}>>::HAS, true)?;").unwrap();
        }
        for p in ["Debug", "Display"] {
            writeln!(r, "    crate::has(\"{p} for the set\", probe::{p}::<enumset::EnumSet<{n}>>::HAS, {})?;", has(p)).unwrap();
        }
        writeln!(r, "    crate::has(\"PartialEq<enum> for the set\", probe::EqSet::<enumset::EnumSet<{n}>, {n}>::HAS, true)?;").unwrap();
        // which of them: with an impl of the user's there can be no second one
        let all = live.iter().take(24).map(|v| format!("{}::{}", n, v.name)).collect::<Vec<_>>().join(", ");
        writeln!(r, "    let all: &[{n}] = &[{all}];").unwrap();
        writeln!(r, "    let fail = |m: &str| -> ::core::result::Result<(), crate::Fail> {{ ::core::result::Result::Err(m.into()) }};").unwrap();
        let weird = manual && self.supplied > 1;
        if weird {
            writeln!(r, "    for a in all {{ for b in all {{ if a != b {{ return fail(\"the user's equality is not used\"); }} }} }}").unwrap();
        } else {
            writeln!(r, "    for (i, a) in all.iter().enumerate() {{ for (j, b) in all.iter().enumerate() {{\n        if (*a == *b) != (i == j) || (*a != *b) == (i == j) || ::core::cmp::PartialEq::eq(a, b) != (i == j) || ::core::cmp::PartialEq::ne(a, b) == (i == j) {{ return fail(&format!(\"variants number {{}} and {{}} compare wrongly\", i, j)); }}\n    }} }}").unwrap();
        }
        writeln!(r, "    for (i, a) in all.iter().enumerate() {{ let c = ::core::clone::Clone::clone(a); let mut k = all[0]; ::core::clone::Clone::clone_from(&mut k, a); let d = *a; if index(c) != i || index(k) != i || index(d) != i {{ return fail(\"a clone is another variant\"); }} }}").unwrap();
        if own {
            writeln!(r, "    for a in all {{ for b in all {{ if (*a - *b) != \"sub\" || (*a & *b) != \"bitand\" || (*a | *b) != \"bitor\" || (*a ^ *b) != \"bitxor\" || !(!*a) || (*a | enumset::EnumSet::only(*b)) != 77u8 || *a == enumset::EnumSet::only(*b) {{ return fail(\"the user's operators are not used\"); }} }} }}").unwrap();
        } else if !d.no_ops {
            writeln!(r, "    type S__ = enumset::EnumSet<{n}>;\n    for a in all {{ for b in all {{ let (x, y) = (S__::only(*a), S__::only(*b));\n        let ok: [(S__, S__); 8] = [(*a - *b, x - y), (*a & *b, x & y), (*a | *b, x | y), (*a ^ *b, x ^ y), (*a - y, x - y), (*a & y, x & y), (*a | y, x | y), (*a ^ y, x ^ y)];\n        if ok.iter().any(|p| p.0 != p.1) || (!*a) != !x || (*a == y) != (x == y) || (*a != y) == (x == y) {{ return fail(\"an operator of the enum differs from that of the set\"); }}\n    }} }}").unwrap();
        }
        if let Some(w) = d.int_repr {
            writeln!(r, "    fn same_type(_: <{n} as enumset::EnumSetTypeWithRepr>::Repr) where {n}: enumset::EnumSetTypeWithRepr<Repr = u{w}> {{}}\n    same_type(0u{w});\n    let x: u{w} = enumset::EnumSet::<{n}>::all().as_repr();\n    let s: enumset::EnumSet<{n}> = enumset::EnumSet::from_repr(x);\n    if s != enumset::EnumSet::all() || enumset::EnumSet::<{n}>::try_from_repr(x) != ::core::option::Option::Some(s) || enumset::EnumSet::<{n}>::from_repr_truncated(!0u{w}) != s || unsafe {{ enumset::EnumSet::<{n}>::from_repr_unchecked(x) }} != s || ::core::mem::size_of::<enumset::EnumSet<{n}>>() != {} {{ return fail(\"the methods of the representation disagree\"); }}", w / 8).unwrap();
        }
        writeln!(r, "    crate::sets(all, index)?;\n    bits__()").unwrap();
        writeln!(s, "pub fn run() -> ::core::result::Result<(), crate::Fail> {{\n{}\n}}", r).unwrap();
        d.module(&s)
    }
}

impl Case for C20 {
    fn items(&self) -> Vec<Item> {
        vec![Item {
            what: "the traits",
            module: Module {
                settings: Settings { lib: if self.serde { "serde" } else { "base" }, root: root(), batch: 6, ..Settings::default() },
                source: self.source(),
            },
            expect: Expect::Runs,
        }]
    }
    fn nontrivial(&self) -> bool {
        self.def.live().len() >= 2
    }
    fn labels(&self) -> Vec<String> {
        let d = &self.def;
        vec![
            format!("no_ops {}{}", d.no_ops, if d.no_ops && self.own_ops { " with the user's" } else { "" }),
            format!("no_super_impls {}{}", d.no_super, match (d.no_super, self.supplied) { (true, 0) => " derived", (true, 1) => " by hand", (true, _) => " of another meaning", _ => "" }),
            format!("repr {:?}", d.int_repr),
        ]
    }
}

fn fixed() -> Vec<C20> {
    let mut v = vec![];
    let mut k = 0usize;
    for vals in [&[][..], &[0], &[7], &[0, 1, 2, 3], &[6, 0, 3], &[1, 40, 63], &[0, 64, 127], &[2, 128, 200], &[1, 257, 513], &[0, 65536, 65537, 16384, 32768]] {
        let max = vals.iter().copied().max().unwrap_or(0);
        for repr in ["", "u8", "u16", "u32", "u64", "u128", "array"] {
            if repr.starts_with('u') && repr[1..].parse::<u64>().unwrap() <= max {
                continue;
            }
            for no_ops in 0..3 {
                for no_super in 0..4 {
                    // a third of the product, every pair of options present
                    k += 1;
                    if (k + no_ops + no_super) % 3 != 0 {
                        continue;
                    }
                    let mut d = PDef::simple("Enum", vals);
                    if !repr.is_empty() {
                        d.options.push(format!("repr = \"{}\"", repr));
                        d.int_repr = repr.strip_prefix('u').map(|x| x.parse().unwrap());
                    }
                    if no_ops > 0 {
                        d.no_ops = true;
                        d.options.push("no_ops".into());
                    }
                    if no_super > 0 {
                        d.no_super = true;
                        d.options.push("no_super_impls".into());
                    }
                    v.push(C20 {
                        def: d,
                        supplied: (no_super.max(1) - 1) as u8,
                        own_ops: no_ops == 2,
                        extra: if k % 2 == 0 { vec![] } else { vec!["Debug".into(), "Hash".into()] },
                        serde: k % 5 == 0,
                    });
                }
            }
        }
    }
    v
}

pub fn check(cfg: &vrun::Cfg) -> Check<C20> {
    let _ = cfg;
    let random = (
        prop_oneof![3 => pdef::def(false, 30, 300), 1 => pdef::def(false, 30, 70000)],
        0u8..3,
        any::<bool>(),
        prop::sample::subsequence(vec!["Debug", "Display", "Hash"], 0..=3),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(mut def, supplied, own_ops, extra, ord, serde)| {
            def.derives = vec!["enumset::EnumSetType".into()];
            let mut extra: Vec<String> = extra.into_iter().map(|x| x.to_string()).collect();
            if ord {
                extra.push("PartialOrd".into());
                extra.push("Ord".into());
            }
            if def.place == Place::Macro && def.variants.len() > 20 {
                def.place = Place::Module;
            }
            C20 { def, supplied, own_ops, extra, serde }
        });
    Check {
        property: "C20",
        rule: "combinations of options, representations and user-supplied impls (derived, by hand, an equality of another meaning, operators of the user's own) over random enums; for about 50 traits whether they are implemented is decided at compile time and compared with the expectation, the equality of all pairs of variants, the operators of the enum, the methods of the representation and the behaviour of sets at run time; non-trivial: at least two variants",
        fixed: fixed(),
        random: random.boxed(),
        quick: 400,
        thorough: 3000,
        assumptions: vec![],
    }
}
