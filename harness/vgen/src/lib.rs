//! Generator of enum definitions: a data type describing a `#[derive(EnumSetType)]` enum, a fixed
//! catalogue of boundary definitions, a proptest strategy for random ones, and their rendering as
//! Rust source.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct VarDef {
    pub name: String,
    /// the text of the explicit discriminant, if it has one
    pub text: Option<String>,
    /// the discriminant rustc gives it
    pub value: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Opts {
    pub no_ops: bool,
    pub no_super: bool,
    pub repr: Option<String>,
    pub ser: Option<String>,
    pub deny: bool,
    pub as_list: bool,
    pub as_map: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    /// derived Debug, Display that honours width and precision
    Derived,
    /// Debug and Display that write flags of the formatter, one of them over several lines
    Custom,
    /// Debug and Display that write plain text and ignore every parameter
    Plain,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EnumDef {
    pub name: String,
    pub vis: String,
    pub rust_repr: Option<String>,
    pub opts: Opts,
    /// every option in an attribute of its own
    pub split_attrs: bool,
    pub fmt: Fmt,
    pub variants: Vec<VarDef>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SerKind {
    Int(u32),
    Array,
    List,
    Map,
}

pub fn plain_ident(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

impl EnumDef {
    pub fn new(name: &str, vals: &[u32]) -> EnumDef {
        let mut next = 0u64;
        let mut variants = Vec::new();
        for (i, v) in vals.iter().enumerate() {
            let text = if *v as u64 == next { None } else { Some(v.to_string()) };
            variants.push(VarDef { name: format!("V{}", i), text, value: *v });
            next = *v as u64 + 1;
        }
        EnumDef {
            name: name.to_string(),
            vis: "pub".to_string(),
            rust_repr: None,
            opts: Opts::default(),
            split_attrs: false,
            fmt: Fmt::Derived,
            variants,
        }
    }
    pub fn repr(mut self, s: &str) -> Self {
        self.opts.repr = Some(s.to_string());
        self
    }
    pub fn ser(mut self, s: &str) -> Self {
        match s {
            "as_list" => self.opts.as_list = true,
            "as_map" => self.opts.as_map = true,
            s => self.opts.ser = Some(s.to_string()),
        }
        self
    }
    pub fn deny(mut self) -> Self {
        self.opts.deny = true;
        self
    }
    pub fn no_ops(mut self) -> Self {
        self.opts.no_ops = true;
        self
    }
    pub fn no_super(mut self) -> Self {
        self.opts.no_super = true;
        self
    }
    pub fn rust_repr(mut self, s: &str) -> Self {
        self.rust_repr = Some(s.to_string());
        self
    }
    pub fn fmt(mut self, f: Fmt) -> Self {
        self.fmt = f;
        self
    }
    pub fn max(&self) -> Option<u32> {
        self.variants.iter().map(|x| x.value).max()
    }
    pub fn ser_kind(&self) -> SerKind {
        // the legacy options override the new one, and the list option the map option
        if self.opts.as_list {
            return SerKind::List;
        }
        if self.opts.as_map {
            return SerKind::Map;
        }
        match self.opts.ser.as_deref() {
            Some("u8") => SerKind::Int(8),
            Some("u16") => SerKind::Int(16),
            Some("u32") => SerKind::Int(32),
            Some("u64") => SerKind::Int(64),
            Some("u128") => SerKind::Int(128),
            Some("list") => SerKind::List,
            Some("map") => SerKind::Map,
            Some("array") => SerKind::Array,
            Some(x) => panic!("{}", x),
            None => match self.max().unwrap_or(0) {
                0..=7 => SerKind::Int(8),
                8..=15 => SerKind::Int(16),
                16..=31 => SerKind::Int(32),
                32..=63 => SerKind::Int(64),
                64..=127 => SerKind::Int(128),
                _ => SerKind::Array,
            },
        }
    }
    /// width of the explicit integer representation
    pub fn int_repr(&self) -> Option<u32> {
        match self.opts.repr.as_deref() {
            Some("array") | None => None,
            Some(x) => x[1..].parse().ok(),
        }
    }
    pub fn needs_serde(&self) -> bool {
        matches!(self.ser_kind(), SerKind::List | SerKind::Map)
    }

    pub fn options(&self) -> Vec<String> {
        let o = &self.opts;
        let mut v = Vec::new();
        if let Some(x) = &o.repr {
            v.push(format!("repr = \"{}\"", x));
        }
        if o.no_ops {
            v.push("no_ops".to_string());
        }
        if let Some(x) = &o.ser {
            v.push(format!("serialize_repr = \"{}\"", x));
        }
        if o.deny {
            v.push("serialize_deny_unknown".to_string());
        }
        if o.no_super {
            v.push("no_super_impls".to_string());
        }
        if o.as_map {
            v.push("serialize_as_map".to_string());
        }
        if o.as_list {
            v.push("serialize_as_list".to_string());
        }
        v
    }

    /// The definition itself. `derives` is put next to `EnumSetType`; `extra` options are added.
    pub fn source(&self, derives: &[&str], extra: &[String]) -> String {
        let mut s = String::new();
        let mut d = vec!["EnumSetType".to_string()];
        d.extend(derives.iter().map(|x| x.to_string()));
        if self.opts.no_super {
            d.extend(["Copy", "Clone", "PartialEq", "Eq"].map(|x| x.to_string()));
        }
        writeln!(s, "#[derive({})]", d.join(", ")).unwrap();
        let mut o = self.options();
        o.extend(extra.iter().cloned());
        if self.split_attrs {
            for x in &o {
                writeln!(s, "#[enumset({})]", x).unwrap();
            }
        } else if !o.is_empty() {
            writeln!(s, "#[enumset({})]", o.join(", ")).unwrap();
        }
        if let Some(r) = &self.rust_repr {
            writeln!(s, "#[repr({})]", r).unwrap();
        }
        writeln!(s, "{} enum {} {{", self.vis, self.name).unwrap();
        for v in &self.variants {
            match &v.text {
                Some(t) => writeln!(s, "    {} = {},", v.name, t).unwrap(),
                None => writeln!(s, "    {},", v.name).unwrap(),
            }
        }
        writeln!(s, "}}").unwrap();
        s
    }
}

fn range(a: u32, b: u32) -> Vec<u32> {
    (a..b).collect()
}

/// The fixed catalogue. Names are stable: regression inputs refer to them.
pub fn catalogue() -> Vec<EnumDef> {
    let mut v = Vec::new();
    let d = |n: &str, x: &[u32]| EnumDef::new(n, x);
    // dense, at every width boundary
    v.push(d("Empty", &[]));
    for n in [1u32, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 257, 330] {
        v.push(d(&format!("Dense{}", n), &range(0, n)));
    }
    // single variants far from zero
    for n in [5u32, 63, 64, 127, 128, 300] {
        v.push(d(&format!("Single{}", n), &[n]));
    }
    // sparse
    v.push(d("Gap8", &[0, 2, 7]));
    v.push(d("Gap16", &[1, 8, 15]).fmt(Fmt::Custom));
    v.push(d("Gap32", &[0, 15, 16, 31]));
    v.push(d("Gap64", &[0, 31, 32, 63]));
    v.push(d("Sparse127", &[10, 20, 30, 127]));
    v.push(d("Words4", &[0, 63, 64, 127, 128, 191, 192, 255]).fmt(Fmt::Plain));
    v.push(d("Words16", &[3, 500, 1000]).fmt(Fmt::Custom));
    v.push(d("SkipWords", &[1, 130, 200, 260]));
    v.push(d("LowGap", &[70, 71, 100, 126]));
    v.push(d("Far", &[0, 64, 4999, 6463]));
    v.push(d("Huge", &[5, 64, 69, 8000, 65535, 65536, 65541, 65600, 66303]));
    v.push(d("Unsorted", &[7, 3, 100, 0, 64, 63]));
    v.push(d("Unsorted8", &[7, 3, 0, 5]).fmt(Fmt::Custom));
    {
        let mut x = range(0, 200);
        x.retain(|x| x % 3 != 1);
        x.reverse();
        v.push(d("Descending200", &x));
    }
    // explicit representations
    v.push(d("ReprU8Full", &range(0, 8)).repr("u8"));
    v.push(d("ReprU8Gap", &[1, 4, 6]).repr("u8"));
    v.push(d("ReprU16Full", &range(0, 16)).repr("u16"));
    v.push(d("ReprU16Few", &[0, 2, 3]).repr("u16"));
    v.push(d("ReprU32Top", &[0, 16, 31]).repr("u32"));
    v.push(d("ReprU32Full", &range(0, 32)).repr("u32"));
    v.push(d("ReprU64Full", &range(0, 64)).repr("u64"));
    v.push(d("ReprU64Gap", &[7, 33, 62]).repr("u64"));
    v.push(d("ReprU128Full", &range(0, 128)).repr("u128"));
    v.push(d("ReprU128Gap", &[0, 63, 64, 127]).repr("u128").fmt(Fmt::Custom));
    v.push(d("ReprU128Few", &[0, 1, 2]).repr("u128"));
    v.push(d("ReprU128One", &[70]).repr("u128"));
    v.push(d("ReprU32Empty", &[]).repr("u32"));
    v.push(d("ArrayFew", &[0, 1, 2, 9]).repr("array"));
    v.push(d("Array64", &range(0, 64)).repr("array"));
    v.push(d("Array100", &[0, 63, 64, 99]).repr("array"));
    v.push(d("ArrayEmpty", &[]).repr("array"));
    // representations in memory that are wider than the serialized form needs
    for (name, top, repr) in [
        ("U16Of8", 7, "u16"),
        ("U32Of8", 7, "u32"),
        ("U32Of16", 15, "u32"),
        ("U64Of8", 5, "u64"),
        ("U64Of16", 8, "u64"),
        ("U64Of32", 31, "u64"),
        ("U128Of16", 12, "u128"),
        ("U128Of32", 16, "u128"),
        ("U128Of64", 63, "u128"),
        ("ArrayOf8", 7, "array"),
        ("ArrayOf32", 31, "array"),
        ("ArrayOf64", 63, "array"),
        ("ArrayOf128", 127, "array"),
    ] {
        v.push(d(name, &[1, 4, top]).repr(repr));
    }
    // Rust representations of the enum itself
    v.push(d("RustU8", &[0, 1, 127, 128, 255]).rust_repr("u8"));
    v.push(d("RustI8", &[0, 5, 127]).rust_repr("i8"));
    v.push(d("RustU16", &[3, 300, 301]).rust_repr("u16").repr("array"));
    v.push(d("RustI16", &[2, 9]).rust_repr("i16").repr("u16"));
    v.push(d("RustU32", &[0, 40, 41]).rust_repr("u32"));
    v.push(d("RustI32", &[0, 1, 2, 64]).rust_repr("i32"));
    v.push(d("RustU64", &[0, 40, 90]).rust_repr("u64").repr("u128"));
    v.push(d("RustI64", &[1, 2, 3, 500]).rust_repr("i64"));
    v.push(d("RustU128", &[1, 2, 77]).rust_repr("u128"));
    v.push(d("RustIsize", &[0, 6, 7]).rust_repr("isize"));
    v.push(d("RustUsize", &[0, 6, 9, 129]).rust_repr("usize"));
    v.push(d("RustC", &[0, 1, 30]).rust_repr("C").repr("u32"));
    // options
    v.push(d("NoOps", &range(0, 10)).no_ops());
    v.push(d("NoOpsWide", &[0, 64, 130]).no_ops());
    v.push(d("NoSuper", &[0, 1, 2, 33]).no_super());
    v.push(d("NoSuperNoOps", &[4, 80, 200]).no_super().no_ops().repr("array"));
    // serialization representations
    v.push(d("SerU8", &[0, 3, 7]).ser("u8"));
    v.push(d("SerU8Deny", &[0, 3, 7]).ser("u8").deny());
    v.push(d("SerU16", &[0, 3]).ser("u16"));
    v.push(d("SerU16DenyWide", &[0, 3, 15]).repr("u128").ser("u16").deny());
    v.push(d("SerU32Deny", &range(0, 32)).ser("u32").deny());
    v.push(d("SerU32Array", &[2, 31]).repr("array").ser("u32"));
    v.push(d("SerU64", &[1, 8, 40]).ser("u64"));
    v.push(d("SerU64DenyArray", &[1, 8, 63]).repr("array").ser("u64").deny());
    v.push(d("SerU128", &[0, 1, 2]).ser("u128"));
    v.push(d("SerU128Deny", &[0, 64, 127]).ser("u128").deny());
    v.push(d("SerU128Full", &range(0, 128)).ser("u128"));
    v.push(d("SerDefDeny8", &[0, 2, 4]).deny());
    v.push(d("SerDefDeny100", &[0, 2, 99]).deny());
    v.push(d("SerDefDeny200", &[0, 2, 64, 199]).deny());
    v.push(d("SerArrayFew", &[0, 2, 5]).ser("array"));
    v.push(d("SerArrayFewDeny", &[0, 2, 5]).ser("array").deny());
    v.push(d("SerArray128", &[0, 63, 64, 127]).repr("u128").ser("array"));
    v.push(d("SerArray128Deny", &[0, 63, 64, 127]).repr("u128").ser("array").deny());
    v.push(d("SerArrayWide", &[0, 63, 64, 130, 255, 300]).ser("array"));
    v.push(d("SerArrayWideDeny", &[0, 63, 64, 130, 255, 300]).ser("array").deny());
    v.push(d("SerArray192", &range(0, 192)).ser("array").deny());
    v.push(d("SerList", &[5, 0, 3]).ser("list"));
    v.push(d("SerListDeny", &[1, 0, 90]).ser("list").deny());
    v.push(d("SerListWide", &[0, 64, 200, 128, 65]).ser("list"));
    v.push(d("SerMap", &[5, 0, 3]).ser("map"));
    v.push(d("SerMapWide", &[0, 64, 200, 128, 65]).ser("map").deny());
    v.push(d("SerAsList", &[0, 1, 70]).ser("as_list"));
    v.push(d("SerAsMap", &[0, 1, 20]).ser("as_map"));
    v.push(d("SerAsBoth", &[0, 1, 20]).ser("as_map").ser("as_list"));
    v.push(d("SerListEmpty", &[]).ser("list"));
    v.push(d("SerListMany", &range(0, 300)).ser("list"));
    v.push(d("SerMapMany", &range(5, 270)).ser("map"));
    v.push(d("SerListFar", &[1, 257, 65537, 65793]).ser("list"));
    v.push(d("SerArrayFar", &[1, 257, 16384, 65536]).ser("array").deny());
    v.push(d("SerArrayEmpty", &[]).ser("array").deny());
    v
}

/// A sorted list of distinct discriminants of one of several shapes.
pub fn discriminants(max_n: usize, max_v: u32) -> impl Strategy<Value = Vec<u32>> {
    let cap = max_v;
    let edge = prop::sample::select(
        vec![
            0u32, 1, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129,
            191, 192, 193, 255, 256, 319, 320,
        ]
        .into_iter()
        .filter(move |x| *x <= cap)
        .collect::<Vec<_>>(),
    );
    let any = prop_oneof![
        4 => edge.clone(),
        3 => 0..=(max_v.min(140)),
        2 => 0..=max_v,
    ];
    prop_oneof![
        // dense from some start
        3 => (1..=max_n, prop_oneof![3 => Just(0u32), 1 => edge.clone()]).prop_map(move |(n, s)| {
            (0..n as u32).map(|x| s + x).filter(|x| *x <= cap).collect::<Vec<_>>()
        }),
        // some equal modulo a power of two
        2 => (prop::collection::btree_set(any.clone(), 1..=3), prop::collection::vec((0usize..3, prop::sample::select(vec![8u32, 16, 32, 64, 128, 256, 16384, 65536])), 1..5)).prop_map(move |(base, far)| {
            let base: Vec<u32> = base.into_iter().collect();
            let mut all: std::collections::BTreeSet<u32> = base.iter().copied().collect();
            for (i, d) in far {
                let v = base[i % base.len()] + d;
                if v <= cap { all.insert(v); }
            }
            all.into_iter().take(max_n).collect()
        }),
        // a set of edges
        4 => prop::collection::btree_set(any.clone(), 1..=max_n.min(12)).prop_map(|x| x.into_iter().collect()),
        // dense runs with holes
        3 => (prop::collection::vec((1u32..6, 1u32..9), 1..=(max_n / 4).max(1).min(20)), prop_oneof![2 => Just(0u32), 1 => edge]).prop_map(move |(runs, s)| {
            let mut v = Vec::new();
            let mut at = s;
            for (gap, len) in runs {
                at += gap;
                for _ in 0..len { if v.len() < max_n && at <= cap { v.push(at); } at += 1; }
            }
            if v.is_empty() { v.push(s.min(cap)); }
            v
        }),
    ]
}

/// How to write a discriminant.
pub fn literal(v: u32, style: u8) -> String {
    match style % 8 {
        0..=3 => v.to_string(),
        4 => format!("0x{:X}", v),
        5 => format!("0b{:b}", v),
        6 => format!("0o{:o}", v),
        _ => {
            let s = v.to_string();
            if s.len() > 1 { format!("{}_{}", &s[..1], &s[1..]) } else { format!("0x{:02x}", v) }
        }
    }
}

/// Random definition, for the runtime checks: plain names, any options.
pub fn random_def(max_n: usize, max_v: u32) -> impl Strategy<Value = EnumDef> {
    (
        discriminants(max_n, max_v),
        0u8..4,                                    // order
        any::<u64>(),                              // shuffle seed
        prop::collection::vec(any::<u8>(), 16),    // literal styles
        any::<[u8; 8]>(),                          // options
    )
        .prop_map(move |(vals, order, seed, styles, o)| {
            let mut vals = vals;
            match order {
                0 => {}
                1 => vals.reverse(),
                _ => {
                    let mut s = seed | 1;
                    for i in (1..vals.len()).rev() {
                        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        vals.swap(i, (s >> 33) as usize % (i + 1));
                    }
                }
            }
            let mut d = EnumDef::new("E", &vals);
            for (i, v) in d.variants.iter_mut().enumerate() {
                let st = styles[i % styles.len()];
                // mostly implicit where possible, sometimes redundantly explicit
                if v.text.is_some() || st & 0x30 == 0x30 {
                    v.text = Some(literal(v.value, st));
                }
            }
            let max = *vals.iter().max().unwrap();
            let fits = |w: u32| max < w;
            // memory representation
            let reprs: Vec<&str> = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128)]
                .iter()
                .filter(|x| fits(x.1))
                .map(|x| x.0)
                .collect();
            match o[0] % 8 {
                0..=2 if !reprs.is_empty() => {
                    d = d.repr(reprs[o[1] as usize % reprs.len()]);
                }
                3 => d = d.repr("array"),
                _ => {}
            }
            // serialization
            match o[2] % 10 {
                0..=2 if !reprs.is_empty() => {
                    d = d.ser(reprs[o[3] as usize % reprs.len()]);
                }
                3 | 4 => d = d.ser("array"),
                5 => d = d.ser("list"),
                6 => d = d.ser("map"),
                _ => {}
            }
            if o[4] % 2 == 0 {
                d = d.deny();
            }
            if o[4] & 0x1c == 0 {
                d = d.no_ops();
            }
            if o[4] & 0xe0 == 0 {
                d = d.no_super();
            }
            d.split_attrs = o[5] & 1 == 1;
            d.fmt = match o[5] >> 6 {
                0 | 1 => Fmt::Derived,
                2 => Fmt::Custom,
                _ => Fmt::Plain,
            };
            // Rust representation
            let rr: Vec<&str> = [
                ("u8", 255u64),
                ("i8", 127),
                ("u16", 65535),
                ("i16", 32767),
                ("u32", u32::MAX as u64),
                ("i32", i32::MAX as u64),
                ("u64", u64::MAX),
                ("i64", i64::MAX as u64),
                ("usize", u32::MAX as u64),
                ("isize", i32::MAX as u64),
                ("C", i32::MAX as u64),
            ]
            .iter()
            .filter(|x| max as u64 <= x.1)
            .map(|x| x.0)
            .collect();
            if o[6] % 2 == 0 {
                d = d.rust_repr(rr[o[7] as usize % rr.len()]);
            }
            d
        })
}

pub fn rng_from(seed: u64, salt: &str) -> proptest::test_runner::TestRng {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in salt.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut key = [0u8; 32];
    for (i, c) in key.chunks_mut(8).enumerate() {
        let mut x = h.wrapping_add((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(x ^ (x >> 31)).to_le_bytes());
    }
    proptest::test_runner::TestRng::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &key)
}

/// The types of one run: the catalogue and some random definitions named `R0`, `R1`, ...
pub fn types_for(seed: u64, n_random: usize) -> Vec<EnumDef> {
    use proptest::strategy::ValueTree;
    let mut v = catalogue();
    let mut r = proptest::test_runner::TestRunner::new_with_rng(
        Default::default(),
        rng_from(seed, "types"),
    );
    let (near, far) = (random_def(70, 420), random_def(40, 70000));
    for i in 0..n_random {
        // a few with distant discriminants
        let mut d = if i % 12 == 11 {
            far.new_tree(&mut r).unwrap().current()
        } else {
            near.new_tree(&mut r).unwrap().current()
        };
        d.name = format!("R{}", i);
        v.push(d);
    }
    v
}

/// Source of a module with these types, their formatting, serde and `Subject` impls.
pub fn types_module(defs: &[EnumDef]) -> String {
    let mut s = String::new();
    for (idx, d) in defs.iter().enumerate() {
        let n = &d.name;
        writeln!(s, "// @type {}", n).unwrap();
        let mut derives: Vec<&str> = vec!["serde_derive::Serialize", "serde_derive::Deserialize"];
        if d.fmt == Fmt::Derived {
            derives.push("Debug");
        }
        s += &d.source(&derives, &[]);
        // formatting, written without the derive
        let arms = |f: &dyn Fn(&VarDef) -> String| {
            let mut a = String::new();
            for v in &d.variants {
                write!(a, "            {}::{} => {},\n", n, v.name, f(v)).unwrap();
            }
            if d.variants.is_empty() { "            _ => loop {},\n".to_string() } else { a }
        };
        let name_arms = arms(&|v| format!("{:?}", plain_ident(&v.name)));
        writeln!(s, "impl {n} {{ #[allow(unreachable_code)] fn vname(&self) -> &'static str {{ match *self {{\n{name_arms}        }} }} }}").unwrap();
        match d.fmt {
            Fmt::Derived => {
                writeln!(s, "impl core::fmt::Display for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ f.pad(self.vname()) }} }}").unwrap();
            }
            Fmt::Custom => {
                writeln!(s, "impl core::fmt::Debug for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ crate::custom_debug(self.vname(), f) }} }}").unwrap();
                writeln!(s, "impl core::fmt::Display for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ crate::custom_display(self.vname(), f) }} }}").unwrap();
            }
            Fmt::Plain => {
                writeln!(s, "impl core::fmt::Debug for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ f.write_str(\"<\")?; f.write_str(self.vname())?; f.write_str(\">\") }} }}").unwrap();
                writeln!(s, "impl core::fmt::Display for {n} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ f.write_str(self.vname()) }} }}").unwrap();
            }
        }
        // an order that is not that of the discriminants
        writeln!(s, "impl core::cmp::Ord for {n} {{ fn cmp(&self, other: &Self) -> core::cmp::Ordering {{ crate::own_order(Subject::d(*self)).cmp(&crate::own_order(Subject::d(*other))) }} }}").unwrap();
        writeln!(s, "impl core::cmp::PartialOrd for {n} {{ fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {{ Some(core::cmp::Ord::cmp(self, other)) }} }}").unwrap();
        // subject
        let mut sorted: Vec<&VarDef> = d.variants.iter().collect();
        sorted.sort_by_key(|x| x.value);
        let discr = sorted.iter().map(|x| x.value.to_string()).collect::<Vec<_>>().join(", ");
        let names = sorted.iter().map(|x| format!("{:?}", plain_ident(&x.name))).collect::<Vec<_>>().join(", ");
        let decl = d.variants.iter().map(|x| x.value.to_string()).collect::<Vec<_>>().join(", ");
        let ser = match d.ser_kind() {
            SerKind::Int(w) => format!("SerKind::Int({})", w),
            SerKind::Array => "SerKind::Array".to_string(),
            SerKind::List => "SerKind::List".to_string(),
            SerKind::Map => "SerKind::Map".to_string(),
        };
        let d_arms = arms(&|v| v.value.to_string());
        let mut from_arms = String::new();
        for v in &d.variants {
            write!(from_arms, "            {} => Some({}::{}),\n", v.value, n, v.name).unwrap();
        }
        writeln!(
            s,
            "impl Subject for {n} {{\n    const INFO: TypeInfo = TypeInfo {{ index: {idx}, name: {n:?}, source: {src:?}, discr: &[{discr}], names: &[{names}], declared: &[{decl}], ser: {ser}, deny: {deny}, int_repr: {ir} }};\n    #[allow(unreachable_code)]\n    fn d(self) -> u32 {{ match self {{\n{d_arms}        }} }}\n    fn from_d(d: u32) -> Option<Self> {{ match d {{\n{from_arms}            _ => None,\n        }} }}\n}}",
            src = d.source(&[], &[]),
            deny = d.opts.deny,
            ir = d.int_repr().unwrap_or(0),
        )
        .unwrap();
    }
    let list = |f: &dyn Fn(&EnumDef) -> bool| {
        defs.iter().filter(|x| f(x)).map(|x| format!("$crate::types::{}", x.name)).collect::<Vec<_>>().join(", ")
    };
    writeln!(s, "// @type").unwrap();
    writeln!(s, "#[macro_export] macro_rules! all_types {{ ($m:ident) => {{ $m!({}) }} }}", list(&|_| true)).unwrap();
    // enough for every memory and serialization representation and its boundaries
    let ser = |d: &EnumDef| {
        d.name.starts_with("Ser")
            || d.name.starts_with('R') && d.name[1..].parse::<u32>().is_ok()
            || [
                "Empty", "Dense1", "Dense8", "Dense9", "Dense16", "Dense17", "Dense32", "Dense33", "Dense64",
                "Dense65", "Dense128", "Dense129", "Dense257", "Single64", "Single300", "Gap16", "Sparse127",
                "SkipWords", "Far", "Unsorted", "ReprU8Gap", "ReprU64Full", "ReprU128Few", "ReprU128One",
                "ReprU32Empty", "ArrayFew", "Array100", "ArrayEmpty", "NoSuperNoOps",
            ]
            .contains(&d.name.as_str())
    };
    writeln!(s, "#[macro_export] macro_rules! ser_types {{ ($m:ident) => {{ $m!({}) }} }}", list(&ser)).unwrap();
    writeln!(s, "#[macro_export] macro_rules! ops_types {{ ($m:ident) => {{ $m!({}) }} }}", list(&|d| !d.opts.no_ops)).unwrap();
    writeln!(s, "#[macro_export] macro_rules! repr_types {{ ($m:ident) => {{ $m!({}) }} }}", list(&|d| d.int_repr().is_some())).unwrap();
    s
}
