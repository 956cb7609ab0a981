//! Enum definitions as source text, with everything the language lets one write around them.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PVar {
    pub name: String,
    pub text: Option<String>,
    pub value: u64,
    pub attrs: Vec<String>,
    /// false: removed by cfg
    pub live: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Place {
    Module,
    /// inside a function
    Local,
    /// written by a macro_rules macro
    Macro,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PDef {
    pub name: String,
    pub vis: String,
    /// attributes before and after the derive
    pub before: Vec<String>,
    pub after: Vec<String>,
    /// how the derive is written: contents of derive attributes
    pub derives: Vec<String>,
    pub options: Vec<String>,
    /// 0 one attribute, 1 each its own, 2 trailing comma, 3 before the derive, 4 by cfg_attr
    pub option_style: u8,
    pub rust_repr: Option<String>,
    pub variants: Vec<PVar>,
    pub place: Place,
    pub no_super: bool,
    pub no_ops: bool,
    pub int_repr: Option<u32>,
    pub list_or_map: bool,
    /// further items next to the enum
    pub items: String,
}

impl PDef {
    pub fn live(&self) -> Vec<&PVar> {
        self.variants.iter().filter(|x| x.live).collect()
    }
    pub fn simple(name: &str, vals: &[u64]) -> PDef {
        let mut next = 0;
        let mut variants = vec![];
        for (i, v) in vals.iter().enumerate() {
            variants.push(PVar {
                name: format!("V{}", i),
                text: if *v == next { None } else { Some(v.to_string()) },
                value: *v,
                attrs: vec![],
                live: true,
            });
            next = *v + 1;
        }
        PDef {
            name: name.to_string(),
            vis: "pub".to_string(),
            before: vec![],
            after: vec![],
            derives: vec!["enumset::EnumSetType".to_string()],
            options: vec![],
            option_style: 0,
            rust_repr: None,
            variants,
            place: Place::Module,
            no_super: false,
            no_ops: false,
            int_repr: None,
            list_or_map: false,
            items: String::new(),
        }
    }
    pub fn attributes(&self) -> Vec<String> {
        let mut a: Vec<String> = self.before.clone();
        let mut opts = vec![];
        match self.option_style {
            1 => opts.extend(self.options.iter().map(|x| format!("#[enumset({})]", x))),
            2 if !self.options.is_empty() => opts.push(format!("#[enumset({},)]", self.options.join(", "))),
            4 if !self.options.is_empty() => {
                opts.push(format!("#[cfg_attr(all(), enumset({}))]", self.options.join(", ")))
            }
            _ if !self.options.is_empty() => opts.push(format!("#[enumset({})]", self.options.join(", "))),
            _ => {}
        }
        let mut derive: Vec<String> = self.derives.iter().map(|x| format!("#[derive({})]", x)).collect();
        if self.no_super {
            derive.push("#[derive(Copy, Clone, PartialEq, Eq)]".to_string());
        }
        if let Some(r) = &self.rust_repr {
            if self.option_style == 3 {
                derive.insert(0, format!("#[repr({})]", r));
            } else {
                derive.push(format!("#[repr({})]", r));
            }
        }
        // helper attributes before the derive that introduces them are deprecated by rustc
        a.extend(derive);
        a.extend(opts);
        a.extend(self.after.clone());
        a
    }
    /// The definition.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for a in self.attributes() {
            writeln!(s, "{}", a).unwrap();
        }
        writeln!(s, "{} enum {} {{", self.vis, self.name).unwrap();
        for v in &self.variants {
            for a in &v.attrs {
                writeln!(s, "    {}", a).unwrap();
            }
            match &v.text {
                Some(t) => writeln!(s, "    {} = {},", v.name, t).unwrap(),
                None => writeln!(s, "    {},", v.name).unwrap(),
            }
        }
        writeln!(s, "}}").unwrap();
        if self.place == Place::Macro {
            return format!(
                "macro_rules! mk {{ ($(#[$m:meta])* $v:vis enum $n:ident {{ $($(#[$vm:meta])* $var:ident $(= $d:tt)?,)* }}) => {{ $(#[$m])* $v enum $n {{ $($(#[$vm])* $var $(= $d)?,)* }} }} }}\nmk! {{\n{}}}\n",
                s
            );
        }
        s
    }
    /// A module around the definition with `body`, items and then the function `run`.
    pub fn module(&self, body: &str) -> String {
        match self.place {
            Place::Local => format!(
                "pub fn run() -> ::core::result::Result<(), crate::Fail> {{\n{}{}{}\nrun() }}",
                self.items,
                self.text(),
                body
            ),
            _ => format!("{}{}{}", self.items, self.text(), body),
        }
    }
}

#[derive(Clone, Debug)]
struct RawVar {
    kind: u8,
    value: u64,
    style: u8,
    name: u8,
    attr: u8,
}

pub const PLAIN_NAMES: &[&str] = &[
    "A", "B", "C", "D", "Alpha", "Beta", "Gamma", "Delta", "snake_case", "lower", "UPPER_CASE", "X1", "X2", "Y9", "_Leading",
    "__Double", "Z", "Red", "Green", "Blue", "Last",
];
pub const ODD_NAMES: &[&str] = &[
    "r#fn", "r#match", "r#type", "r#async", "r#dyn", "r#try", "r#let", "r#struct", "r#where", "r#move", "r#Plain", "Été",
    "Ωmega", "日本", "ñ", "r#yield", "r#become", "Straße", "r#gen",
];
/// names the generated code uses, or that shadow something of the prelude
pub const HOSTILE_NAMES: &[&str] = &[
    "Output", "Repr", "Value", "Error", "Ok", "Err", "Some", "None", "Option", "Result", "Copy", "Clone", "PartialEq", "Eq",
    "Into", "From", "Iterator", "IntoIterator", "EnumSet", "EnumSetType", "T", "O", "S", "D", "A", "Visitor", "Vec",
    "String", "Box", "Default", "Drop", "Fn", "Send", "Sync", "Sized", "Sub", "BitAnd", "BitOr", "BitXor", "Not", "core",
    "std", "alloc", "enumset", "serde", "ConstHelper", "ALL_BITS", "BIT_WIDTH", "VARIANT_COUNT", "CONST_HELPER_INSTANCE",
    "IS_U8", "IS_U128", "ArrayRepr", "EnumSetTypeRepr", "Serialize", "Serializer", "Deserialize", "Deserializer",
    "enum_into_u32", "enum_from_u32", "all", "new", "empty", "only", "x", "val", "value", "set", "ser", "de", "seq", "map",
    "accum", "array", "end", "formatter", "idx", "bit", "helper", "other", "chain", "i", "E", "__internal", "core_export",
];

fn literal(v: u64, style: u8, ty: &str) -> String {
    let dec = v.to_string();
    match style % 14 {
        0..=3 => dec,
        4 => format!("0x{:X}", v),
        5 => format!("0x{:x}", v),
        6 => format!("0b{:b}", v),
        7 => format!("0o{:o}", v),
        8 => format!("{}{}", v, ty),
        9 => format!("0x{:04x}_{}", v, ty),
        10 => format!("00{}", v),
        11 => format!("{}__{}_", &dec[..1], &dec[1..]),
        12 => format!("0b_{:b}_{}", v, ty),
        _ => format!("0x_{:X}", v),
    }
}

/// Random definitions with discriminants up to about `max_v`.
pub fn def(hostile: bool, max_n: usize, max_v: u64) -> impl Strategy<Value = PDef> {
    let raw = (0u8..10, any::<u32>(), any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(kind, value, style, name, attr)| RawVar { kind, value: value as u64, style, name, attr });
    let n = prop_oneof![
        8 => 1usize..=max_n.min(10),
        3 => 1usize..=max_n.min(40),
        1 => 1usize..=max_n,
    ];
    (
        n.prop_flat_map(move |n| prop::collection::vec(raw.clone(), n.min(1)..=n)),
        prop_oneof![3 => Just(7u64), 2 => Just(15), 2 => Just(31), 3 => Just(63), 3 => Just(127), 2 => Just(130), 3 => Just(300), 1 => Just(5000), 1 => Just(70000)],
        prop::array::uniform16(any::<u8>()),
    )
        .prop_map(move |(raw, cap, o)| build(hostile, &raw, cap.min(max_v), &o))
}

fn build(hostile: bool, raw: &[RawVar], cap: u64, o: &[u8; 16]) -> PDef {
    let edges: Vec<u64> = [
        0u64, 1, 6, 7, 8, 9, 14, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 255, 256, 4095, 4096,
        65535, 65536,
    ]
    .iter()
    .copied()
    .filter(|x| *x <= cap)
    .collect();
    let pool: Vec<&str> = match o[0] % 6 {
        _ if hostile => {
            if o[0] % 3 == 0 { PLAIN_NAMES.to_vec() } else { HOSTILE_NAMES.to_vec() }
        }
        0 => [PLAIN_NAMES, ODD_NAMES].concat(),
        1 => ODD_NAMES.to_vec(),
        2 => [PLAIN_NAMES, HOSTILE_NAMES].concat(),
        _ => PLAIN_NAMES.to_vec(),
    };
    let pick = |used: &mut HashSet<String>, k: u8| -> String {
        let mut s = pool[k as usize % pool.len()].to_string();
        let mut i = 0;
        while used.contains(s.trim_start_matches("r#")) {
            i += 1;
            s = format!("{}{}", pool[k as usize % pool.len()].trim_start_matches("r#"), i);
        }
        used.insert(s.trim_start_matches("r#").to_string());
        s
    };
    let mut used = HashSet::new();
    let mut vals: HashSet<u64> = HashSet::new();
    let mut variants = vec![];
    let mut next = 0u64;
    for r in raw {
        let (live, attrs): (bool, Vec<String>) = match r.attr {
            0..=9 => (true, vec!["/// documented".to_string()]),
            10..=19 => (true, vec!["#[cfg(all())]".to_string()]),
            20..=34 => (false, vec!["#[cfg(any())]".to_string()]),
            35..=44 => (true, vec!["#[deprecated]".to_string()]),
            45..=54 => (true, vec!["#[doc(hidden)]".to_string(), "#[allow(dead_code)]".to_string()]),
            55..=59 => (true, vec!["#[cfg_attr(all(), doc = \"x\")]".to_string()]),
            _ => (true, vec![]),
        };
        let ty_later = "@"; // the suffix, known once the repr is
        let mut text = None;
        let mut v;
        if r.kind < 5 && (!live || !vals.contains(&next)) {
            v = next;
        } else {
            v = match r.kind {
                0..=6 => next + r.value % 4,
                7 => edges[r.value as usize % edges.len()],
                // equal to an earlier one modulo a power of two
                8 if r.style & 3 == 3 && !variants.is_empty() => {
                    let o: &PVar = &variants[r.value as usize % variants.len()];
                    let far = o.value + [8u64, 16, 32, 64, 128, 256, 16384, 65536][r.attr as usize % 8];
                    if far <= cap { far } else { o.value }
                }
                _ => r.value % (cap + 1),
            };
            while vals.contains(&v) {
                v += 1;
            }
            text = Some(literal(v, r.style, ty_later));
        }
        if live {
            vals.insert(v);
            next = v + 1;
        } else if text.is_none() {
            // a removed variant does not count
        }
        let name = pick(&mut used, r.name);
        variants.push(PVar { name, text, value: v, attrs, live });
    }
    let live: Vec<u64> = variants.iter().filter(|x| x.live).map(|x| x.value).collect();
    let max = live.iter().copied().max().unwrap_or(0);
    let mut d = PDef::simple("E", &[]);
    // Rust representation and literal suffixes
    let rr: Vec<&str> = [
        ("u8", 255u64), ("i8", 127), ("u16", 65535), ("i16", 32767), ("u32", 1 << 31), ("i32", 1 << 30), ("u64", 1 << 40),
        ("i64", 1 << 40), ("usize", 1 << 40), ("isize", 1 << 40), ("C", 1 << 30), ("Rust", 1 << 40), ("u128", 1 << 40), ("i128", 1 << 40),
    ]
    .iter()
    .filter(|x| max <= x.1)
    .map(|x| x.0)
    .collect();
    if o[1] % 2 == 0 && !variants.is_empty() && !live.is_empty() {
        d.rust_repr = Some(rr[o[2] as usize % rr.len()].to_string());
    }
    let ty = match d.rust_repr.as_deref() {
        None | Some("C") | Some("Rust") => "isize",
        Some(x) => x,
    };
    for v in &mut variants {
        if let Some(t) = &v.text {
            v.text = Some(t.replace('@', ty));
        }
    }
    d.variants = variants;
    // options
    let ints: Vec<(&str, u32)> = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128)]
        .into_iter()
        .filter(|x| max < x.1 as u64)
        .collect();
    match o[3] % 6 {
        0 | 1 if !ints.is_empty() => {
            let x = ints[o[4] as usize % ints.len()];
            d.int_repr = Some(x.1);
            d.options.push(format!("repr = \"{}\"", x.0));
        }
        2 => d.options.push("repr = \"array\"".to_string()),
        _ => {}
    }
    match o[5] % 9 {
        0 | 1 if !ints.is_empty() => {
            let x = ints[o[6] as usize % ints.len()];
            d.options.push(format!("serialize_repr = \"{}\"", x.0));
        }
        2 => d.options.push("serialize_repr = \"array\"".to_string()),
        3 => {
            d.options.push("serialize_repr = \"list\"".to_string());
            d.list_or_map = true;
        }
        4 => {
            d.options.push("serialize_repr = \"map\"".to_string());
            d.list_or_map = true;
        }
        _ => {}
    }
    if o[7] % 2 == 0 {
        d.options.push("serialize_deny_unknown".to_string());
    }
    if o[7] % 16 < 4 {
        d.options.push("no_ops".to_string());
        d.no_ops = true;
    }
    if o[7] / 16 < 3 {
        d.options.push("no_super_impls".to_string());
        d.no_super = true;
    }
    if o[8] % 8 == 0 {
        d.options.push("crate_name = \"enumset\"".to_string());
    }
    let n = d.options.len();
    if n > 1 {
        d.options.rotate_left(o[8] as usize / 8 % n);
    }
    d.option_style = o[9] % 5;
    // surroundings
    d.vis = ["pub", "pub", "", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"][o[10] as usize % 7].to_string();
    let base = match o[11] % 4 {
        0 => "::enumset::EnumSetType",
        _ => "enumset::EnumSetType",
    };
    let extra = match o[11] / 4 % 6 {
        0 => "Debug",
        1 => "Debug, Hash, PartialOrd, Ord",
        2 => "Hash",
        _ => "",
    };
    d.derives = match (extra.is_empty(), o[11] / 32 % 3) {
        (true, _) => vec![base.to_string()],
        (_, 0) => vec![format!("{}, {}", base, extra)],
        (_, 1) => vec![format!("{}, {}", extra, base)],
        _ => vec![base.to_string(), extra.to_string()],
    };
    if !hostile {
        match o[12] % 12 {
            0 => d.before.push("/// documentation".to_string()),
            1 => d.after.push("#[non_exhaustive]".to_string()),
            2 => d.after.push("#[must_use]".to_string()),
            3 => d.before.push("#[deprecated(note = \"old\")]".to_string()),
            4 => d.after.push("#[cfg_attr(any(), derive(Missing))]".to_string()),
            5 => d.after.push("#[allow(clippy::all)]".to_string()),
            _ => {}
        }
    }
    let names: Vec<&str> = match o[13] % 5 {
        _ if hostile => HOSTILE_NAMES.to_vec(),
        0 => ODD_NAMES.to_vec(),
        1 => vec!["E", "Enum", "Flags", "r#enum", "lower", "Énum", "V0", "A"],
        _ => vec!["Enum"],
    };
    d.name = names[o[14] as usize % names.len()].to_string();
    d.place = match o[15] % 6 {
        0 => Place::Local,
        1 => Place::Macro,
        _ => Place::Module,
    };
    if d.place == Place::Local && d.vis.contains('(') {
        d.vis = String::new();
    }
    d
}
