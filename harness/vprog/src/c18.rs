//! Constant-evaluated set expressions equal the run-time operations.
use crate::driver::{Case, Check, Expect, Item};
use crate::engine::{Module, Settings};
use crate::pdef::{self, PDef, Place};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    pub op: u8,
    pub args: Vec<u16>,
    pub trailing: u8,
    pub ctx: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18 {
    pub def: PDef,
    pub nodes: Vec<Node>,
    /// sets matched against the constants, by variant index
    pub probes: Vec<Vec<u16>>,
}

pub const ROOT: &str = r##"
pub type Fail = ::std::string::String;
pub fn same<E: enumset::EnumSetType>(what: &str, got: enumset::EnumSet<E>, run: enumset::EnumSet<E>, model: &[u64]) -> Result<(), Fail> {
    let mut w = vec![!0u64; model.len()];
    match got.try_copy_into_slice(&mut w) {
        None => return Err(format!("{} holds variants beyond {} words", what, model.len())),
        Some(()) => {}
    }
    if w != model { return Err(format!("{} has the bits {:x?}, not {:x?}", what, w, model)); }
    if got != run { return Err(format!("{} differs from the run-time operators", what)); }
    Ok(())
}
pub fn eq(what: &str, got: usize, want: usize) -> Result<(), Fail> {
    if got == want { Ok(()) } else { Err(format!("{} gives {}, not {}", what, got, want)) }
}
"##;

/// One operand: its text in a macro, its text at run time, its value.
#[derive(Clone)]
struct Operand {
    path: String,
    run: String,
    value: BTreeSet<u64>,
}

impl C18 {
    fn words(&self) -> usize {
        self.def.live().iter().map(|x| x.value).max().unwrap_or(0) as usize / 64 + 1
    }
    fn model(&self, v: &BTreeSet<u64>) -> String {
        let mut w = vec![0u64; self.words()];
        for x in v {
            w[*x as usize / 64] |= 1 << (x % 64);
        }
        format!("&[{}]", w.iter().map(|x| format!("0x{:x}", x)).collect::<Vec<_>>().join(", "))
    }
    fn source(&self) -> String {
        let d = &self.def;
        let n = &d.name;
        let live = d.live();
        let all: BTreeSet<u64> = live.iter().map(|x| x.value).collect();
        let module = d.place != Place::Local;
        let mut s = String::new();
        let mut run = String::new();
        writeln!(s, "type Set__ = enumset::EnumSet<{}>;", n).unwrap();
        writeln!(s, "use enumset::{{enum_set, enum_set_union, enum_set_intersection, enum_set_complement, enum_set_difference, enum_set_symmetric_difference}};").unwrap();
        let mut ops: Vec<Operand> = live
            .iter()
            .map(|v| Operand { path: format!("{}::{}", n, v.name), run: format!("Set__::only({}::{})", n, v.name), value: [v.value].into_iter().collect() })
            .collect();
        let n_var = ops.len();
        ops.push(Operand { path: "Set__::ALL".into(), run: "Set__::all()".into(), value: all.clone() });
        ops.push(Operand { path: "Set__::EMPTY".into(), run: "Set__::new()".into(), value: BTreeSet::new() });
        let mut consts: Vec<Operand> = vec![];
        for (i, node) in self.nodes.iter().enumerate() {
            let sel = |k: u16| -> Operand {
                // half variants, half earlier constants
                let k = k as usize;
                if k % 2 == 0 && n_var > 0 {
                    ops[k / 2 % n_var].clone()
                } else if k % 32 == 1 {
                    ops[n_var + k / 32 % 2].clone()
                } else if !consts.is_empty() {
                    consts[k / 2 % consts.len()].clone()
                } else {
                    ops[k / 2 % ops.len()].clone()
                }
            };
            let mut args: Vec<Operand> = node.args.iter().map(|k| sel(*k)).collect();
            if args.is_empty() && node.op % 8 != 0 && node.op % 8 != 6 {
                args.push(sel(i as u16));
            }
            // other ways to spell the path of a variant
            for a in args.iter_mut() {
                if module && node.trailing & 0x40 != 0 && a.path.starts_with(&format!("{}::", n)) && (node.ctx % 6 != 4) {
                    a.path = format!("self::{}", a.path);
                }
            }
            let comma = if node.trailing & 1 == 1 { "," } else { "" };
            let bars = match node.trailing % 5 {
                0 => "",
                1 => " |",
                2 => "||".get(..1).unwrap(),
                3 => " | |",
                _ => "",
            };
            let brackets = match node.trailing & 0x30 {
                0x10 => ('{', '}'),
                0x20 => ('[', ']'),
                _ => ('(', ')'),
            };
            let list = |sep: &str| args.iter().map(|a| a.path.clone()).collect::<Vec<_>>().join(sep);
            let mac = |name: &str, inner: String| format!("{}!{}{}{}", name, brackets.0, inner, brackets.1);
            let fold = |f: &dyn Fn(&BTreeSet<u64>, &BTreeSet<u64>) -> BTreeSet<u64>, op: &str| -> (BTreeSet<u64>, String) {
                let mut v = args[0].value.clone();
                let mut r = args[0].run.clone();
                for a in &args[1..] {
                    v = f(&v, &a.value);
                    r = format!("({} {} {})", r, op, a.run);
                }
                (v, r)
            };
            let (expr, (value, rt)) = match node.op % 8 {
                0 | 7 => {
                    let r = if args.is_empty() { (BTreeSet::new(), "Set__::new()".to_string()) } else { fold(&|a, b| a | b, "|") };
                    (mac("enum_set", format!("{}{}", list(" | "), bars)), r)
                }
                1 => (mac("enum_set_union", format!("{}{}", list(", "), comma)), fold(&|a, b| a | b, "|")),
                2 => (mac("enum_set_intersection", format!("{}{}", list(", "), comma)), fold(&|a, b| a & b, "&")),
                3 => (mac("enum_set_difference", format!("{}{}", list(", "), comma)), fold(&|a, b| a - b, "-")),
                4 => (mac("enum_set_symmetric_difference", format!("{}{}", list(", "), comma)), fold(&|a, b| a ^ b, "^")),
                5 => (
                    mac("enum_set_complement", format!("{}{}", args[0].path, comma)),
                    (&all - &args[0].value, format!("(!{})", args[0].run)),
                ),
                _ => match node.trailing % 5 {
                    0 => ("enumset::EnumSet::new()".to_string(), (BTreeSet::new(), "Set__::default()".into())),
                    1 => ("Set__::empty()".to_string(), (BTreeSet::new(), "Set__::new()".into())),
                    2 => ("Set__::all()".to_string(), (all.clone(), "(!Set__::new())".into())),
                    3 => ("Set__::EMPTY".to_string(), (BTreeSet::new(), "Set__::empty()".into())),
                    _ => ("Set__::ALL".to_string(), (all.clone(), "Set__::all()".into())),
                },
            };
            let path = match node.ctx % 6 {
                1 => {
                    writeln!(s, "struct H{i}; impl H{i} {{ const C: Set__ = {expr}; }}").unwrap();
                    format!("H{i}::C")
                }
                2 => {
                    writeln!(s, "const fn f{i}() -> Set__ {{ {expr} }} const C{i}: Set__ = f{i}();").unwrap();
                    format!("C{i}")
                }
                3 => {
                    writeln!(s, "const C{i}: Set__ = {{ const X: Set__ = {expr}; enum_set_union!(X, X) }};").unwrap();
                    format!("C{i}")
                }
                4 if module => {
                    writeln!(s, "mod k{i} {{ use super::*; pub(super) const C: Set__ = {expr}; }}").unwrap();
                    format!("k{i}::C")
                }
                5 => {
                    writeln!(s, "const C{i}: Set__ = {{ let x = {expr}; x }};").unwrap();
                    format!("C{i}")
                }
                _ => {
                    writeln!(s, "const C{i}: Set__ = {expr};").unwrap();
                    format!("C{i}")
                }
            };
            writeln!(run, "    let r{i}: Set__ = {rt};").unwrap();
            writeln!(run, "    crate::same({:?}, {path}, r{i}, {})?;", format!("const {} = {}", path, expr), self.model(&value)).unwrap();
            writeln!(run, "    let l{i}: Set__ = {expr};").unwrap();
            writeln!(run, "    crate::same({:?}, l{i}, r{i}, {})?;", format!("let {}", expr), self.model(&value)).unwrap();
            if let Some(w) = d.int_repr {
                let mut bits = 0u128;
                for x in &value {
                    bits |= 1 << x;
                }
                writeln!(s, "const R{i}: u{w} = {path}.as_repr(); const _: () = ::core::assert!(R{i} == 0x{bits:x});").unwrap();
                writeln!(run, "    if r{i}.as_repr() != R{i} {{ return ::core::result::Result::Err(\"as_repr differs at run time\".into()); }}").unwrap();
            }
            consts.push(Operand { path, run: format!("r{i}"), value });
        }
        // queries in constants
        let max = all.iter().next_back().map_or(0, |x| x + 1);
        writeln!(s, "const WIDTH__: u32 = Set__::bit_width(); const COUNT__: u32 = Set__::variant_count();").unwrap();
        writeln!(s, "const ARR__: [u8; Set__::variant_count() as usize] = [0; {}];", all.len()).unwrap();
        writeln!(s, "const _: () = ::core::assert!(WIDTH__ == {} && COUNT__ == {});", max, all.len()).unwrap();
        writeln!(run, "    crate::eq(\"bit_width\", Set__::bit_width() as usize, WIDTH__ as usize)?; crate::eq(\"variant_count\", Set__::variant_count() as usize, COUNT__ as usize)?;").unwrap();
        // patterns: the first constant equal to the set
        let pats: Vec<&Operand> = consts.iter().take(12).collect();
        let mut m = String::new();
        for (i, p) in pats.iter().enumerate() {
            writeln!(m, "        {} => {},", p.path, i).unwrap();
        }
        writeln!(run, "    fn which(s: Set__) -> usize {{ match s {{\n{}        _ => 99, }} }}", m).unwrap();
        let first = |v: &BTreeSet<u64>| pats.iter().position(|p| p.value == *v).unwrap_or(99);
        for (i, c) in consts.iter().enumerate() {
            writeln!(run, "    crate::eq(\"matching constant {i}\", which(r{i}), {})?;", first(&c.value)).unwrap();
        }
        for (j, p) in self.probes.iter().enumerate() {
            let mut v: BTreeSet<u64> = BTreeSet::new();
            let mut e = "Set__::new()".to_string();
            if n_var > 0 {
                for k in p {
                    let o = &ops[*k as usize % n_var];
                    v.extend(&o.value);
                    e = format!("({} | {})", e, o.run);
                }
                // sometimes one away from a constant
                if j % 2 == 1 && !consts.is_empty() && !p.is_empty() {
                    let c = &consts[j % consts.len()];
                    let o = &ops[p[0] as usize % n_var];
                    v = &c.value ^ &o.value;
                    e = format!("({} ^ {})", c.run, o.run);
                }
            }
            writeln!(run, "    crate::eq(\"matching probe {j}\", which({e}), {})?;", first(&v)).unwrap();
        }
        if consts.len() >= 2 {
            let (a, b) = (&consts[0], &consts[consts.len() - 1]);
            let (j, k) = (0, consts.len() - 1);
            writeln!(
                run,
                "    let pair = match (r{k}, ::core::option::Option::Some(r{j})) {{ ({a}, ::core::option::Option::Some({b})) => 1, ({b}, ::core::option::Option::Some({a})) => 2, _ => 3 }};\n    crate::eq(\"matching a tuple\", pair, {want})?;\n    crate::eq(\"if let\", if let {b} = r{j} {{ 1 }} else {{ 0 }}, {same})?;",
                a = a.path, b = b.path,
                want = if a.value == b.value { 1 } else { 2 },
                same = (a.value == b.value) as u8,
            )
            .unwrap();
        }
        writeln!(s, "pub fn run() -> ::core::result::Result<(), crate::Fail> {{\n{}    ::core::result::Result::Ok(())\n}}", run).unwrap();
        d.module(&s)
    }
}

impl Case for C18 {
    fn items(&self) -> Vec<Item> {
        vec![Item {
            what: "the constants",
            module: Module { settings: Settings { root: ROOT.into(), batch: 8, ..Settings::default() }, source: self.source() },
            expect: Expect::Runs,
        }]
    }
    fn nontrivial(&self) -> bool {
        self.nodes.iter().any(|n| n.args.len() >= 2 && n.op % 8 != 6) && self.def.live().len() >= 2
    }
    fn labels(&self) -> Vec<String> {
        let mut v: BTreeSet<String> = BTreeSet::new();
        for n in &self.nodes {
            let op = ["enum_set", "union", "intersection", "difference", "symmetric_difference", "complement", "constructor", "enum_set"][n.op as usize % 8];
            v.insert(format!("{} of {}", op, match n.args.len() { 0 => "0", 1 => "1", 2 => "2", _ => "3 or more" }));
            v.insert(format!("context {}", ["const", "associated const", "const fn", "nested block", "other module", "let in const"][n.ctx as usize % 6]));
        }
        let max = self.def.live().iter().map(|x| x.value).max().unwrap_or(0);
        v.insert(format!("max {}", match max { 0..=7 => "<8", 8..=15 => "<16", 16..=31 => "<32", 32..=63 => "<64", 64..=127 => "<128", _ => ">=128" }));
        if let Some(w) = self.def.int_repr {
            v.insert(format!("as_repr u{}", w));
        }
        v.into_iter().collect()
    }
}

fn node() -> impl Strategy<Value = Node> {
    (any::<u8>(), prop_oneof![6 => prop::collection::vec(any::<u16>(), 0..5), 1 => prop::collection::vec(any::<u16>(), 5..24)], any::<u8>(), any::<u8>())
        .prop_map(|(op, args, trailing, ctx)| Node { op, args, trailing, ctx })
}

fn fixed() -> Vec<C18> {
    let mut v = vec![];
    // every macro on every catalogue enum: two overlapping sets, then everything with them
    for e in vgen::catalogue() {
        let mut d = PDef::simple("Enum", &[]);
        d.variants = e
            .variants
            .iter()
            .map(|x| pdef::PVar { name: x.name.clone(), text: x.text.clone(), value: x.value as u64, attrs: vec![], live: true })
            .collect();
        d.options = e.options();
        d.rust_repr = e.rust_repr.clone();
        d.no_super = e.opts.no_super;
        d.no_ops = e.opts.no_ops;
        d.int_repr = e.int_repr();
        if e.needs_serde() || e.name.starts_with("Ser") {
            continue;
        }
        let n = d.variants.len().max(1) as u16;
        let last = (n - 1) * 2;
        let node = |op, args: &[u16], trailing| Node { op, args: args.to_vec(), trailing, ctx: op };
        let mut nodes = vec![
            node(0, &[0, last, n / 2 * 2], 1),      // C0: first, last, middle
            node(7, &[last], 3),                    // C1: last
            node(1, &[2, last], 0),                 // C2
            node(6, &[], 2),                        // C3: all
        ];
        for op in 1..=5u8 {
            nodes.push(node(op, &[3 + 64, 5 + 64, last], op)); // constants 1 and 2 (mod) and the last variant
            nodes.push(node(op, &[7 + 64, 0], op + 1));
        }
        v.push(C18 { def: d, nodes, probes: vec![vec![0], vec![0, 1], vec![n - 1]] });
    }
    v
}

pub fn check(cfg: &vrun::Cfg) -> Check<C18> {
    let random = (
        pdef::def(false, 40, if cfg.thorough { 5000 } else { 400 }),
        prop::collection::vec(node(), 1..14),
        prop::collection::vec(prop::collection::vec(any::<u16>(), 0..5), 0..5),
    )
        .prop_map(|(def, nodes, probes)| C18 { def, nodes, probes });
    Check {
        property: "C18",
        rule: "programs of named constants, each made by one of the macros (any arity, trailing separators, any brackets) or const constructors from variants and earlier constants, in items, associated constants, const fns, nested blocks and modules; every constant is compared bit for bit with the generator's set, with the run-time operators folded from the left and with the same macro at run time, as_repr in constants with the generator's integer, and the constants are matched as patterns against equal and unequal sets; non-trivial: an operation on at least two operands over at least two variants",
        fixed: fixed(),
        random: random.boxed(),
        quick: 800,
        thorough: 5000,
        assumptions: vec![],
    }
}
