//! Every documented enum definition derives, and each variant gets its own bit.
use crate::driver::{Case, Check, Expect, Item};
use crate::engine::{Module, Settings};
use crate::pdef::{self, PDef, Place};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16 {
    pub def: PDef,
    pub serde: bool,
}

pub const ROOT: &str = r##"
pub type Fail = ::std::string::String;
/// Compares the enum with the discriminants rustc gives its variants.
pub fn check<E: enumset::EnumSetType>(all: &[(E, u32)], idx: fn(E) -> usize, repr: &str) -> Result<(), Fail> {
    use enumset::EnumSet;
    macro_rules! chk { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } } }
    let max = all.iter().map(|x| x.1).max();
    let width = max.map_or(0, |x| x + 1);
    let n = max.map_or(0, |x| x as usize / 64 + 1);
    chk!(EnumSet::<E>::variant_count() as usize == all.len(), "variant_count is {}, not {}", EnumSet::<E>::variant_count(), all.len());
    chk!(EnumSet::<E>::bit_width() == width, "bit_width is {}, not {}", EnumSet::<E>::bit_width(), width);
    // no more memory than the bits need
    let size = std::mem::size_of::<EnumSet<E>>();
    match repr {
        "?" => {}
        "" => {
            let most = match width { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => n * 8 };
            chk!(size <= most, "a set takes {} bytes, {} would hold {} bits", size, most, width);
        }
        "array" => chk!(size == n.max(1) * 8, "a set takes {} bytes, not {} words", size, n.max(1)),
        _ => {
            let bits: usize = repr[1..].parse().unwrap();
            chk!(size * 8 == bits, "a set takes {} bytes with the representation {}", size, repr);
        }
    }
    let set = EnumSet::<E>::all();
    chk!(set.len() == all.len(), "the full set has {} members, not {}", set.len(), all.len());
    let mut model = vec![0u64; n + 2];
    for x in all { model[x.1 as usize / 64] |= 1 << (x.1 % 64); }
    let mut words = vec![!0u64; n + 2];
    set.copy_into_slice(&mut words);
    chk!(words == model, "the full set has the bits {:x?}, not {:x?}", words, model);
    // in ascending order, by pattern
    let mut order: Vec<usize> = (0..all.len()).collect();
    order.sort_by_key(|i| all[*i].1);
    let got: Vec<usize> = set.iter().map(idx).collect();
    chk!(got == order, "the full set iterates as the variants number {:?}, not {:?}", got, order);
    let back: Vec<usize> = set.iter().rev().map(idx).collect();
    chk!(back.iter().rev().eq(order.iter()), "the full set iterates backwards as {:?}", back);
    let t = EnumSet::<E>::try_from_slice(&model);
    chk!(t == Some(set), "the bits of all variants are refused");
    // every variant on its own
    let step = if all.len() > 300 { all.len() / 100 } else { 1 };
    for (i, (v, d)) in all.iter().enumerate() {
        if i % step != 0 && i + 3 < all.len() { continue; }
        chk!(idx(*v) == i, "the table is wrong at {}", i);
        let mut one = vec![0u64; n + 1];
        one[*d as usize / 64] |= 1 << (d % 64);
        for (how, s) in [("only", EnumSet::only(*v)), ("into", (*v).into()), ("collect", std::iter::once(*v).collect::<EnumSet<E>>())] {
            let mut words = vec![!0u64; n + 1];
            s.copy_into_slice(&mut words);
            chk!(words == one, "{} of variant number {} has the bits {:x?}, not bit {}", how, i, words, d);
            let got: Vec<usize> = s.iter().map(idx).collect();
            chk!(got == [i], "{} of variant number {} iterates as {:?}", how, i, got);
            chk!(s.contains(*v) && s.len() == 1 && set.contains(*v), "{} of variant number {} does not contain it", how, i);
        }
        match EnumSet::<E>::try_from_slice(&one) {
            None => return Err(format!("bit {} of variant number {} is refused", d, i)),
            Some(s) => {
                let got: Vec<usize> = s.iter().map(idx).collect();
                chk!(got == [i], "bit {} becomes the variants number {:?}, not {}", d, got, i);
            }
        }
        let mut rest = set;
        chk!(rest.remove(*v) && !rest.contains(*v) && rest.len() + 1 == all.len(), "variant number {} cannot be removed", i);
        // neighbouring bits are other variants or none
        for b in [d.wrapping_sub(1), d + 1] {
            if b as usize >= n * 64 { continue; }
            let mut w = vec![0u64; n + 1];
            w[b as usize / 64] |= 1 << (b % 64);
            let want: Option<Vec<usize>> = all.iter().position(|x| x.1 == b).map(|x| vec![x]);
            let got = EnumSet::<E>::try_from_slice(&w).map(|s| s.iter().map(idx).collect::<Vec<usize>>());
            chk!(got == want, "bit {} next to variant number {} becomes {:?}, not {:?}", b, i, got, want);
        }
    }
    Ok(())
}
"##;

pub fn body(d: &PDef) -> String {
    let repr = d
        .options
        .iter()
        .find_map(|x| x.strip_prefix("repr = \""))
        .map_or("", |x| x.trim_end_matches('"'));
    body_of(d, repr)
}

/// With "?" for the representation its size is not looked at.
pub fn body_of(d: &PDef, repr: &str) -> String {
    let n = &d.name;
    let live = d.live();
    let mut s = String::new();
    writeln!(s, "const _: () = {{").unwrap();
    for v in live.iter().take(400) {
        writeln!(s, "    ::core::assert!({}::{} as u128 == {});", n, v.name, v.value).unwrap();
    }
    writeln!(s, "}};\nfn index(e: {}) -> usize {{ match e {{", n).unwrap();
    for (i, v) in live.iter().enumerate() {
        writeln!(s, "    {}::{} => {},", n, v.name, i).unwrap();
    }
    let table = live.iter().map(|v| format!("({}::{}, {}u32)", n, v.name, v.value)).collect::<Vec<_>>().join(", ");
    writeln!(s, "}} }}\npub fn run() -> ::core::result::Result<(), crate::Fail> {{ crate::check::<{}>(&[{}], index, {:?}) }}", n, table, repr).unwrap();
    s
}

impl Case for C16 {
    fn items(&self) -> Vec<Item> {
        let mut d = self.def.clone();
        if self.serde && d.list_or_map {
            d.derives.push("serde_derive::Serialize, serde_derive::Deserialize".to_string());
        }
        vec![Item {
            what: "the definition",
            module: Module {
                settings: Settings {
                    lib: if self.serde { "serde" } else { "base" },
                    root: ROOT.to_string(),
                    batch: if d.variants.len() > 200 || d.variants.iter().any(|x| x.value > 60000) { 1 } else { 10 },
                    ..Settings::default()
                },
                source: d.module(&body(&d)),
            },
            expect: Expect::Runs,
        }]
    }
    fn nontrivial(&self) -> bool {
        let l = self.def.live();
        l.len() >= 2 || l.iter().any(|x| x.value > 0)
    }
    fn labels(&self) -> Vec<String> {
        let d = &self.def;
        let l = d.live();
        let max = l.iter().map(|x| x.value).max().unwrap_or(0);
        let mut v = vec![
            format!("serde {}", self.serde),
            format!("place {:?}", d.place),
            format!("variants {}", match l.len() { 0 => "0", 1 => "1", 2..=8 => "2-8", 9..=64 => "9-64", _ => "more" }),
            format!("max {}", match max { 0..=7 => "<8", 8..=15 => "<16", 16..=31 => "<32", 32..=63 => "<64", 64..=127 => "<128", _ => ">=128" }),
        ];
        if d.variants.iter().any(|x| !x.live) {
            v.push("variants removed by cfg".into());
        }
        if d.variants.iter().any(|x| x.name.starts_with("r#") || !x.name.is_ascii()) {
            v.push("raw or unicode identifiers".into());
        }
        if !l.windows(2).all(|w| w[0].value < w[1].value) {
            v.push("discriminants out of order".into());
        }
        if let Some(r) = &d.rust_repr {
            v.push(format!("repr({})", r));
        }
        v
    }
}

fn fixed(thorough: bool) -> Vec<C16> {
    let mut v = vec![];
    for e in vgen::catalogue() {
        for serde in [false, true] {
            // the run-time checks use these with serde already
            if serde && !e.needs_serde() && e.name.starts_with("Dense") {
                continue;
            }
            let mut d = PDef::simple("Enum", &[]);
            d.variants = e
                .variants
                .iter()
                .map(|x| pdef::PVar { name: x.name.clone(), text: x.text.clone(), value: x.value as u64, attrs: vec![], live: true })
                .collect();
            d.options = e.options();
            d.rust_repr = e.rust_repr.clone();
            d.no_super = e.opts.no_super;
            d.no_ops = e.opts.no_ops;
            d.int_repr = e.int_repr();
            d.list_or_map = e.needs_serde();
            v.push(C16 { def: d, serde });
        }
    }
    // sizes beyond the catalogue
    let many = |n: u64| (0..n).collect::<Vec<u64>>();
    v.push(C16 { def: PDef::simple("Enum", &many(1000)), serde: false });
    v.push(C16 { def: PDef::simple("Enum", &many(3000)), serde: true });
    let mut step = vec![];
    let mut at = 0u64;
    for i in 0..700u64 {
        step.push(at);
        at += 1 + (i * i) % 40;
    }
    step.reverse();
    v.push(C16 { def: PDef::simple("Enum", &step), serde: false });
    v.push(C16 { def: PDef::simple("Enum", &[65535, 65536, 0]), serde: false });
    v.push(C16 { def: PDef::simple("Enum", &[5, 100_000, 64]), serde: true });
    v.push(C16 { def: PDef::simple("Enum", &[0, 1 << 19]), serde: false });
    if thorough {
        v.push(C16 { def: PDef::simple("Enum", &many(10000)), serde: false });
        v.push(C16 { def: PDef::simple("Enum", &[1, 1 << 22, 3]), serde: false });
    }
    // every place, every notation
    for place in [Place::Local, Place::Macro] {
        for vals in [&[][..], &[0], &[9], &[0, 1, 2], &[3, 1, 64], &[0, 64, 200]] {
            let mut d = PDef::simple("Enum", vals);
            d.place = place;
            v.push(C16 { def: d, serde: place == Place::Local });
        }
    }
    v
}

pub fn check(cfg: &vrun::Cfg) -> Check<C16> {
    let max = if cfg.thorough { 300_000 } else { 70_000 };
    Check {
        property: "C16",
        rule: "definitions within the documented limits: random numbers, orders and notations of discriminants, identifiers (raw, unicode, of generated code), visibilities, attributes, cfg, options, derives, enums local to a function or written by a macro, with and without serde; compiled with rustc, its `as` casts compared with the generator's values at compile time, then every variant's bit, the full set, the counts and the round trip by pattern at run time; non-trivial: at least two variants or a discriminant above zero",
        fixed: fixed(cfg.thorough),
        random: (pdef::def(false, 90, max), any::<bool>()).prop_map(|(def, serde)| C16 { def, serde }).boxed(),
        quick: 1000,
        thorough: 6000,
        assumptions: vec![
            "discriminants above 2^22 are not compiled: the generated code spells out one literal for every 64 bits".to_string(),
        ],
    }
}
