//! Definitions outside the documented limits are refused, their nearest permitted twins are not.
use crate::c16;
use crate::driver::{Case, Check, Expect, Item};
use crate::engine::{Module, Settings};
use crate::pdef::{PDef, PVar, Place};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Class {
    NonEnum,
    Generic,
    Field,
    Negative,
    NonLiteral,
    Duplicate,
    TooLarge,
    ReprNarrow,
    SerNarrow,
    UnknownOption,
    MalformedOption,
    BadRepr,
    BadSerRepr,
    BadCrateName,
    Deprecated,
}
use Class::*;
const CLASSES: &[Class] = &[
    NonEnum, Generic, Field, Negative, NonLiteral, Duplicate, TooLarge, ReprNarrow, SerNarrow, UnknownOption,
    MalformedOption, BadRepr, BadSerRepr, BadCrateName, Deprecated,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17 {
    pub class: Class,
    /// which of the class's offences
    pub kind: usize,
    /// distinct discriminants of the other variants
    pub vals: Vec<u64>,
    /// where the offending part goes
    pub at: usize,
    pub n: u64,
    pub serde: bool,
    /// other options and surroundings of the enum
    #[serde(default)]
    pub ctx: u32,
}

struct Pair {
    bad: String,
    good: PDef,
    items: String,
}

const WIDTHS: [(&str, u64); 5] = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128)];

pub const NON_LITERALS: &[&str] = &[
    "1 + 1", "K", "1 << 3", "{ 5 }", "5 as isize", "u8::MAX as isize", "k()", "!-6", "b'a' as isize", "'a' as isize",
    "if true { 1 } else { 2 }", "::core::mem::size_of::<u32>() as isize", "true as isize", "Self::K2", "3 - 1", "2 * 4",
    "unsafe { 7 }", "0x10 | 1", "-(-3)", "m!()", "[4][0]", "(1, 2).1", "loop { break 3 }", "self::K", "!0 & 7", "6 % 4", "1.0 as isize",
];
const UNKNOWN: &[&str] = &[
    "no_op", "noops", "NO_OPS", "no_ops_", "representation = \"u8\"", "serialise_repr = \"u8\"", "serialize_deny_unknowns", "Repr = \"u8\"",
    "super_impls", "no_super_impl", "no_super", "serialize_repr_ = \"list\"", "serialize_as_lists", "serialize_as_set", "crate_names = \"enumset\"",
    "deny_unknown", "serialize", "repr_ = \"u8\"", "foo", "foo = \"bar\"", "foo(bar)", "a::b", "enumset::no_ops", "ops", "krate = \"enumset\"",
    "std", "debug", "memory_repr = \"u8\"", "no_ops_impls", "serialize_deny_unknown_bits",
];
const MALFORMED: &[(&str, &str)] = &[
    ("(no_ops = 3)", "(no_ops)"),
    ("(no_ops(x))", "(no_ops)"),
    ("(no_super_impls = \"maybe\")", ""),
    ("(serialize_deny_unknown = 'x')", "(serialize_deny_unknown)"),
    ("(repr)", "(repr = \"u64\")"),
    ("(repr = 64)", "(repr = \"u64\")"),
    ("(repr(u64))", "(repr = \"u64\")"),
    ("(repr(\"u64\"))", "(repr = \"u64\")"),
    ("(repr = u64)", "(repr = \"u64\")"),
    ("(repr == \"u64\")", "(repr = \"u64\")"),
    ("(repr: \"u64\")", "(repr = \"u64\")"),
    ("(serialize_repr)", "(serialize_repr = \"u64\")"),
    ("(serialize_repr = 64)", "(serialize_repr = \"u64\")"),
    ("(serialize_repr(list))", "(serialize_repr = \"u64\")"),
    ("(serialize_repr = array)", "(serialize_repr = \"array\")"),
    ("(no_ops, no_ops)", "(no_ops)"),
    ("(repr = \"u64\", repr = \"u64\")", "(repr = \"u64\")"),
    ("(serialize_repr = \"u64\", serialize_repr = \"array\")", "(serialize_repr = \"u64\")"),
    ("(crate_name = \"enumset\", crate_name = \"enumset\")", "(crate_name = \"enumset\")"),
    ("(repr = \"u64\")] #[enumset(repr = \"u128\")", "(repr = \"u64\")"),
    (" = \"no_ops\"", "(no_ops)"),
    ("(\"no_ops\")", "(no_ops)"),
    ("(no_ops no_ops)", "(no_ops)"),
    ("(no_ops; repr = \"u64\")", "(no_ops, repr = \"u64\")"),
    ("(,)", "()"),
    ("(no_ops,,)", "(no_ops,)"),
    ("(no_ops = )", "(no_ops)"),
    ("(crate_name)", "(crate_name = \"enumset\")"),
    ("(crate_name = enumset)", "(crate_name = \"enumset\")"),
    ("(crate_name = 3)", "(crate_name = \"enumset\")"),
    ("(!no_ops)", "(no_ops)"),
    ("(3)", "()"),
];
const BAD_REPR: &[&str] = &[
    "u7", "U8", " u8", "u8 ", "usize", "i8", "i64", "", "u256", "bool", "arrays", "[u64]", "[u64; 2]", "8", "list", "map", "Array", "u64,u8", "u",
    "f64", "char", "C", "auto", "u1", "u24", "isize", "128",
];
const BAD_SER: &[&str] = &[
    "u7", "U8", " u8", "u8 ", "usize", "i8", "", "u256", "bool", "lists", "maps", "List", "MAP", "seq", "set", "string", "arrays", "[u64]", "tuple",
    "struct", "vec", "bits", "list,map", "u128 ", "isize",
];
const BAD_CRATE: &[&str] = &["foo bar", "", "a::b", "1abc", "::enumset", "enum-set", "enumset;", "fn", "_", "enumset::", "'a", "\\\"x\\\"", "enum set", "(enumset)", "no_such_crate", "enumset2"];

impl C17 {
    fn kinds(c: Class) -> usize {
        match c {
            NonEnum => 5,
            Generic => 7,
            Field => 6,
            Negative => 6,
            NonLiteral => NON_LITERALS.len(),
            Duplicate => 5,
            TooLarge => 12,
            ReprNarrow => 15,
            SerNarrow => 15,
            UnknownOption => UNKNOWN.len(),
            MalformedOption => MALFORMED.len(),
            BadRepr => BAD_REPR.len(),
            BadSerRepr => BAD_SER.len(),
            BadCrateName => BAD_CRATE.len(),
            Deprecated => 4,
        }
    }
    /// An enum with the other variants, and where the one of interest goes.
    fn base(&self, cap: u64, forbidden: &[u64]) -> (PDef, usize) {
        let mut vals: Vec<u64> = vec![];
        for v in &self.vals {
            let v = v % cap;
            if !vals.contains(&v) && !forbidden.contains(&v) {
                vals.push(v);
            }
        }
        let mut d = PDef::simple("Enum", &vals);
        // all explicit, so that a variant can be put anywhere
        for v in &mut d.variants {
            v.text = Some(v.value.to_string());
        }
        let at = if d.variants.is_empty() { 0 } else { self.at % (d.variants.len() + 1) };
        self.surround(&mut d);
        (d, at)
    }
    /// Options and surroundings that are no offence, none of them when `ctx` is 0.
    fn surround(&self, d: &mut PDef) {
        let bit = |i: u32| self.ctx >> i & 1 == 1;
        let class = self.class;
        if class != MalformedOption {
            if bit(0) && class != UnknownOption && class != Deprecated {
                d.no_ops = true;
                d.options.push("no_ops".into());
            }
            if bit(1) && class != BadCrateName {
                d.options.push("crate_name = \"enumset\"".into());
            }
            if bit(2) && class != SerNarrow {
                d.options.push("serialize_deny_unknown".into());
            }
            if bit(3) {
                d.no_super = true;
                d.options.push("no_super_impls".into());
            }
            if bit(4) && bit(5) && class != BadRepr && class != ReprNarrow && class != SerNarrow {
                d.options.push("repr = \"array\"".into());
            }
            if bit(6) && bit(7) && class != BadSerRepr && class != SerNarrow && class != Deprecated {
                d.options.push("serialize_repr = \"array\"".into());
            }
        }
        d.option_style = (self.ctx >> 8 & 3) as u8;
        d.vis = ["pub", "", "pub(crate)", "pub"][(self.ctx >> 10 & 3) as usize].into();
        if bit(12) {
            d.derives[0] = "::enumset::EnumSetType, Debug, Hash".into();
        }
        if bit(13) {
            d.before.push("/// documentation".into());
        }
        if bit(14) && matches!(class, ReprNarrow | SerNarrow | BadRepr | BadSerRepr | BadCrateName | UnknownOption | Deprecated | TooLarge) {
            d.place = Place::Macro;
        }
    }
    fn var(text: Option<String>, value: u64) -> PVar {
        PVar { name: "Special".into(), text, value, attrs: vec![], live: true }
    }
    fn pair(&self) -> Pair {
        let k = self.kind % Self::kinds(self.class);
        let mut items = String::new();
        match self.class {
            NonEnum => {
                let fields = self.vals.len().min(3);
                let f: String = (0..fields).map(|i| format!("v{}: u8, ", i)).collect();
                let t: String = (0..fields).map(|_| "u8, ".to_string()).collect();
                let bad = match k {
                    0 => format!("pub struct Enum {{ {} }}", f),
                    1 => "pub struct Enum;".to_string(),
                    2 => format!("pub struct Enum({});", t),
                    3 => "pub union Enum { a: u8, b: u16 }".to_string(),
                    _ => "pub struct Enum { pub inner: ::core::marker::PhantomData<u8> }".to_string(),
                };
                let vals: Vec<u64> = (0..fields as u64).collect();
                Pair { bad: format!("#[derive(enumset::EnumSetType)]\n{}", bad), good: PDef::simple("Enum", &vals), items }
            }
            Generic => {
                let (good, _) = self.base(200, &[]);
                let g = [
                    "<const N: usize>", "<const N: bool>", "<const N: usize, const M: u8>", "<T>", "<'a>", "<const N: usize = 3>", "<T: Copy>",
                ][k];
                let mut bad = good.clone();
                bad.name = format!("Enum{}", g);
                Pair { bad: bad.text(), good, items }
            }
            Field => {
                let (mut good, at) = self.base(100, &[]);
                // rustc wants a repr where discriminants and fields meet
                good.rust_repr = Some("u8".into());
                let free = (0..).find(|x| good.variants.iter().all(|v| v.value != *x)).unwrap();
                let f = ["(u8)", "{ x: u8 }", "(u8, u16)", "((),)", "(::core::marker::PhantomData<u8>)", "{ a: (), b: () }"][k];
                let mut bad = good.clone();
                good.variants.insert(at, Self::var(Some(free.to_string()), free));
                let mut v = Self::var(None, free);
                v.name = format!("Special {}", f);
                v.name = format!("{} = {}", v.name, free);
                bad.variants.insert(at, v);
                Pair { bad: bad.text(), good, items }
            }
            Negative => {
                let n = 1 + self.n % 100;
                let (mut good, at) = self.base(100, &[n]);
                if self.n % 3 == 0 {
                    good.rust_repr = Some(["i8", "i16", "i32", "i64", "isize"][self.n as usize / 3 % 5].into());
                }
                let ty = good.rust_repr.clone().unwrap_or("isize".into());
                let mut bad = good.clone();
                good.variants.insert(at, Self::var(Some(n.to_string()), n));
                let t = [
                    format!("-{}", n), format!("- {}", n), format!("-0x{:x}", n), format!("-{}{}", n, ty), "-1".to_string(), format!("-0b{:b}", n),
                ][k]
                    .clone();
                bad.variants.insert(at, Self::var(Some(t), 0));
                Pair { bad: bad.text(), good, items }
            }
            NonLiteral => {
                let (mut good, at) = self.base(60, &[]);
                let free = (60..).find(|x| good.variants.iter().all(|v| v.value != *x)).unwrap();
                for v in &mut good.variants {
                    v.value += 200;
                    v.text = Some(v.value.to_string());
                }
                let mut bad = good.clone();
                items = "const K: isize = 9; const fn k() -> isize { 11 } macro_rules! m { () => { 12 } }\nimpl Enum { const K2: isize = 13; }\n".to_string();
                good.variants.insert(at, Self::var(Some(free.to_string()), free));
                bad.variants.insert(at, Self::var(Some(NON_LITERALS[k].into()), 0));
                Pair { bad: bad.text(), good, items }
            }
            Duplicate => {
                let n = 1 + self.n % 100;
                let (mut good, at) = self.base(100, &[n, n - 1]);
                good.variants.insert(at, Self::var(Some(n.to_string()), n));
                let mut bad = good.clone();
                let mut second = Self::var(None, n);
                second.name = "Second".into();
                match k {
                    0 => {
                        second.text = Some(n.to_string());
                        bad.variants.push(second);
                    }
                    1 => {
                        second.text = Some(format!("0x{:x}", n));
                        bad.variants.insert(0, second);
                    }
                    2 => {
                        // one before it, then the implicit successor
                        let mut before = Self::var(Some((n - 1).to_string()), n - 1);
                        before.name = "Before".into();
                        bad.variants.push(before.clone());
                        bad.variants.push(second);
                        good.variants.push(before);
                    }
                    3 => {
                        second.name = "Special".into();
                        second.text = Some("101".into());
                        bad.variants.push(second);
                    }
                    _ => {
                        second.text = Some(format!("0b{:b}", n));
                        bad.variants.insert((at + 1).min(bad.variants.len()), second);
                    }
                }
                Pair { bad: bad.text(), good, items }
            }
            TooLarge => {
                let (mut good, at) = self.base(100, &[101]);
                let mut bad = good.clone();
                bad.rust_repr = Some("u64".into());
                good.rust_repr = Some("u64".into());
                let t = match k {
                    0 => "0xFFFFFFC0".to_string(),
                    1 => format!("{}", 0xFFFFFFC0u64 + self.n % 64),
                    2 => "0xFFFFFFFF".to_string(),
                    3 => "0x1_0000_0000".to_string(),
                    4 => format!("{}", (1u64 << 32) + self.n % 200),
                    5 => format!("{}", (1u64 << 33) + self.n % 200),
                    6 => "0x7FFFFFFFFFFFFFFF".to_string(),
                    7 => "0xFFFFFFFFFFFFFFFF".to_string(),
                    8 => {
                        bad.rust_repr = Some("u128".into());
                        format!("{}", (1u128 << 64) + (self.n % 200) as u128)
                    }
                    9 => {
                        bad.rust_repr = None;
                        format!("{}", (1u64 << 32) + self.n % 100)
                    }
                    10 => {
                        bad.rust_repr = Some("u32".into());
                        "0xFFFF_FFC0".to_string()
                    }
                    // the implicit successor of the largest
                    _ => "0xFFFFFFBF".to_string(),
                };
                bad.variants.insert(at, Self::var(Some(t), 0));
                if k == 11 {
                    let mut v = Self::var(None, 0);
                    v.name = "Next".into();
                    bad.variants.insert(at + 1, v);
                }
                good.variants.insert(at, Self::var(Some("101".into()), 101));
                Pair { bad: bad.text(), good, items }
            }
            ReprNarrow | SerNarrow => {
                let (name, w) = WIDTHS[k % 5];
                let option = if self.class == ReprNarrow { "repr" } else { "serialize_repr" };
                if k / 5 == 2 {
                    // only implicit discriminants
                    let mut good = PDef::simple("Enum", &(0..w).collect::<Vec<_>>());
                    self.surround(&mut good);
                    good.options.push(format!("{} = \"{}\"", option, name));
                    let mut bad = good.clone();
                    let mut v = Self::var(None, w);
                    v.name = "OneMore".into();
                    bad.variants.push(v);
                    return Pair { bad: bad.text(), good, items };
                }
                let (mut good, at) = self.base(w - 1, &[]);
                good.options.push(format!("{} = \"{}\"", option, name));
                if self.class == SerNarrow && self.n % 2 == 1 {
                    good.options.push("repr = \"array\"".into());
                } else if self.class == SerNarrow && self.n % 4 == 2 {
                    good.options.push("serialize_deny_unknown".into());
                }
                let over = if k / 5 == 0 { w } else { w + self.n % 300 };
                let mut bad = good.clone();
                good.variants.insert(at, Self::var(Some((w - 1).to_string()), w - 1));
                bad.variants.insert(at, Self::var(Some(over.to_string()), over));
                Pair { bad: bad.text(), good, items }
            }
            UnknownOption => {
                let (mut good, _) = self.base(200, &[]);
                let mut bad = good.clone();
                bad.options.push(UNKNOWN[k].into());
                if self.n % 2 == 0 {
                    good.options.push("no_ops".into());
                    bad.options.insert(self.n as usize / 2 % 2, "no_ops".into());
                }
                bad.option_style = (self.n / 4 % 3) as u8;
                Pair { bad: bad.text(), good, items }
            }
            MalformedOption => {
                let (mut good, _) = self.base(60, &[]);
                let mut bad = good.clone();
                bad.after.push(format!("#[enumset{}]", MALFORMED[k].0));
                if !MALFORMED[k].1.is_empty() {
                    good.after.push(format!("#[enumset{}]", MALFORMED[k].1));
                }
                Pair { bad: bad.text(), good, items }
            }
            BadRepr | BadSerRepr => {
                let (mut good, _) = self.base(8, &[]);
                let mut bad = good.clone();
                let (opt, v) = if self.class == BadRepr { ("repr", BAD_REPR[k]) } else { ("serialize_repr", BAD_SER[k]) };
                bad.options.push(format!("{} = \"{}\"", opt, v));
                good.options.push(format!("{} = \"{}\"", opt, ["u8", "u16", "u32", "u64", "u128", "array"][self.n as usize % 6]));
                Pair { bad: bad.text(), good, items }
            }
            BadCrateName => {
                let (mut good, _) = self.base(200, &[]);
                let mut bad = good.clone();
                bad.options.push(format!("crate_name = \"{}\"", BAD_CRATE[k]));
                good.options.push("crate_name = \"enumset\"".into());
                Pair { bad: bad.text(), good, items }
            }
            Deprecated => {
                let (mut good, _) = self.base(200, &[]);
                let name = ["list", "map"][k % 2];
                if self.serde {
                    good.derives.push("serde_derive::Serialize, serde_derive::Deserialize".into());
                }
                let mut bad = good.clone();
                if self.n % 2 == 0 {
                    bad.options.push("no_ops".into());
                }
                bad.options.push(format!("serialize_as_{}", name));
                if self.n % 3 == 0 {
                    bad.options.rotate_left(1);
                }
                bad.option_style = (k / 2) as u8;
                good.options.push(format!("serialize_repr = \"{}\"", name));
                Pair { bad: bad.text(), good, items }
            }
        }
    }
}

const DEPRECATED_ROOT: &str = r##"
pub type Fail = ::std::string::String;
"##;

impl Case for C17 {
    fn items(&self) -> Vec<Item> {
        let p = self.pair();
        let lib = if self.serde { "serde" } else { "base" };
        if self.class == Deprecated {
            // only what the derive itself says counts
            let s = Settings {
                lib,
                root: DEPRECATED_ROOT.into(),
                attrs: "#![allow(dead_code)]".into(),
                ..Settings::default()
            };
            let body = if self.serde {
                let d = &p.good;
                let mut sorted = d.variants.clone();
                sorted.sort_by_key(|x| x.value);
                let list = self.kind % 2 == 0;
                let want = if list {
                    format!("[{}]", sorted.iter().map(|x| format!("\\\"{}\\\"", x.name)).collect::<Vec<_>>().join(","))
                } else {
                    format!("{{{}}}", sorted.iter().map(|x| format!("\\\"{}\\\":true", x.name)).collect::<Vec<_>>().join(","))
                };
                format!(
                    "pub fn run() -> Result<(), crate::Fail> {{\n let all = enumset::EnumSet::<Enum>::all();\n let got = serde_json::to_string(&all).map_err(|e| e.to_string())?;\n if got != \"{}\" {{ return Err(format!(\"serializes as {{}}\", got)); }}\n let back: enumset::EnumSet<Enum> = serde_json::from_str(&got).map_err(|e| e.to_string())?;\n if back != all {{ return Err(format!(\"does not read back {{}}\", got)); }}\n Ok(()) }}\n",
                    want
                )
            } else {
                "pub fn run() -> Result<(), crate::Fail> { Ok(()) }\n".to_string()
            };
            return vec![
                Item {
                    what: "the deprecated option",
                    module: Module { settings: s.clone(), source: format!("{}{}", p.bad, body) },
                    expect: Expect::Warns("deprecated"),
                },
                Item {
                    what: "its replacement",
                    module: Module { settings: s, source: format!("{}{}", p.good.text(), body) },
                    expect: Expect::Silent,
                },
            ];
        }
        vec![
            Item {
                what: "the definition outside the limits",
                module: Module {
                    settings: Settings { lib, check_only: true, batch: 40, ..Settings::default() },
                    source: format!("{}{}", p.items, p.bad),
                },
                expect: Expect::Refused,
            },
            Item {
                what: "its nearest permitted twin",
                module: Module {
                    settings: Settings { lib, root: c16::ROOT.to_string(), batch: 16, ..Settings::default() },
                    source: format!("{}{}{}", p.items, p.good.text(), c16::body_of(&p.good, "?")),
                },
                expect: Expect::Runs,
            },
        ]
    }
    fn nontrivial(&self) -> bool {
        !self.vals.is_empty()
    }
    fn labels(&self) -> Vec<String> {
        vec![format!("{:?}", self.class), format!("serde {}", self.serde)]
    }
}

pub fn check(cfg: &vrun::Cfg) -> Check<C17> {
    let _ = cfg;
    let mut fixed = vec![];
    for c in CLASSES {
        for kind in 0..C17::kinds(*c) {
            for (i, vals) in [vec![0u64, 1], vec![5, 3, 70]].into_iter().enumerate() {
                // too narrow serialized representations matter with serde only
                let serde = *c == SerNarrow || (*c == Deprecated && i == 1);
                fixed.push(C17 { class: *c, kind, vals: vals.clone(), at: i * (kind + 1), n: 0, serde, ctx: 0 });
                if *c == Deprecated {
                    // next to every other option
                    for ctx in [1 << 1, 1 << 2, 1 << 3, 3 << 4, 1 << 12, 1 << 14, 0x2e, 1 << 10] {
                        fixed.push(C17 { class: *c, kind, vals: vals.clone(), at: 0, n: ctx as u64 / 2, serde, ctx });
                    }
                }
            }
        }
    }
    let random = (
        prop::sample::select(CLASSES),
        0usize..1000,
        prop::collection::vec(0u64..1000, 0..8),
        0usize..20,
        0u64..10000,
        any::<bool>(),
        prop_oneof![1 => Just(0u32), 2 => 0u32..1 << 15],
    )
        .prop_map(|(class, kind, vals, at, n, serde, ctx)| C17 {
            ctx,
            class,
            kind: kind % C17::kinds(class),
            vals,
            at,
            n,
            serde: serde || class == SerNarrow,
        });
    Check {
        property: "C17",
        rule: "a definition outside the limits in one respect, at a random place among random variants, and its nearest permitted twin; the first must be refused with an error at the definition that is no macro panic, the second must compile and pass the bit-for-bit check of C16; deprecated options must warn and work, their replacements must not warn; non-trivial: there are other variants around the offending part",
        fixed,
        random: random.boxed(),
        quick: 1200,
        thorough: 8000,
        assumptions: vec![
            "the largest permitted discriminant 0xFFFFFFBF itself is not compiled (67 million literals), so acceptance is tested up to 2^22 and refusal from 0xFFFFFFC0".to_string(),
        ],
    }
}
