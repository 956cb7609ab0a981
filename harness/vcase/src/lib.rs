//! Inputs of the runtime checks. None of them mentions a concrete enum: variants are named by an
//! arbitrary index reduced modulo the number of variants, and sets by a shape, so that the same
//! generated input can be interpreted for every type.
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub type Model = BTreeSet<u32>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SerKind {
    Int(u32),
    Array,
    List,
    Map,
}

/// What the checks know about an enum, written by the generator and not taken from the derive.
#[derive(Clone, Copy, Debug)]
pub struct TypeInfo {
    pub index: usize,
    pub name: &'static str,
    pub source: &'static str,
    /// ascending
    pub discr: &'static [u32],
    /// in the order of `discr`
    pub names: &'static [&'static str],
    /// in the order of declaration
    pub declared: &'static [u32],
    pub ser: SerKind,
    pub deny: bool,
    /// width of the explicit integer representation, or 0
    pub int_repr: u32,
}
impl TypeInfo {
    pub fn n(&self) -> usize {
        self.discr.len()
    }
    pub fn max(&self) -> Option<u32> {
        self.discr.last().copied()
    }
    pub fn width(&self) -> u32 {
        self.max().map_or(0, |x| x + 1)
    }
    /// words needed for the largest variant
    pub fn words(&self) -> usize {
        self.max().map_or(0, |x| x as usize / 64 + 1)
    }
    /// mask of valid bits in word `w`
    pub fn valid_word(&self, w: usize) -> u64 {
        let mut m = 0;
        for d in self.discr {
            if *d as usize / 64 == w {
                m |= 1 << (d % 64);
            }
        }
        m
    }
    pub fn has(&self, d: u32) -> bool {
        self.discr.binary_search(&d).is_ok()
    }
}

/// The words of a model, exactly as many as are needed for its largest member.
pub fn model_words(m: &Model) -> Vec<u64> {
    let mut v = Vec::new();
    for d in m {
        let w = *d as usize / 64;
        while v.len() <= w {
            v.push(0);
        }
        v[w] |= 1u64 << (d % 64);
    }
    v
}
pub fn words_model(w: &[u64]) -> Model {
    let mut v = Vec::new();
    for (i, x) in w.iter().enumerate() {
        let mut x = *x;
        while x != 0 {
            v.push(i as u32 * 64 + x.trailing_zeros());
            x &= x - 1;
        }
    }
    v.into_iter().collect()
}
pub fn u128_model(x: u128) -> Model {
    words_model(&[x as u64, (x >> 64) as u64])
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SetSpec {
    Empty,
    All,
    One(u16),
    AllBut(u16),
    /// variants by index
    Pick(Vec<u16>),
    /// random bits, applied to the variants cyclically
    Mask(Vec<u64>),
    /// the variants with index in this (wrapping) range
    Range(u16, u16),
    /// the variants in one word of 64 discriminants
    Word(u8),
    /// all but the variants in one word
    NotWord(u8),
    /// the variants at the low or high end of their word
    WordEdges(bool, bool),
    /// the lowest and the highest variant
    Ends,
    /// every k-th variant
    Stride(u8, u8),
    /// words of 64 discriminants that are copies, negations or complements of one another
    Tied(u64, u8),
    /// some of the variants between two successive widths of integers or words
    Band(u8, u64),
}

/// The `i`th of some words that cancel or repeat one another.
pub fn tied_word(w: u64, kind: u8, i: u32) -> u64 {
    let odd = i % 2 == 1;
    match kind % 6 {
        0 => w,
        1 => if odd { w.wrapping_neg() } else { w },
        2 => if odd { !w } else { w },
        3 => w.rotate_left(i),
        4 => if odd { w.swap_bytes() } else { w },
        _ => if odd { w.wrapping_add(1) } else { w },
    }
}
impl SetSpec {
    /// The discriminants of the members.
    pub fn model(&self, discr: &[u32]) -> Model {
        let n = discr.len();
        let mut m = Model::new();
        if n == 0 {
            return m;
        }
        let at = |i: u16| discr[i as usize % n];
        let words = discr[n - 1] / 64 + 1;
        match self {
            SetSpec::Empty => {}
            SetSpec::All => m.extend(discr),
            SetSpec::One(i) => {
                m.insert(at(*i));
            }
            SetSpec::AllBut(i) => {
                m.extend(discr);
                m.remove(&at(*i));
            }
            SetSpec::Pick(v) => m.extend(v.iter().map(|x| at(*x))),
            SetSpec::Mask(v) => {
                if !v.is_empty() {
                    for (i, d) in discr.iter().enumerate() {
                        if v[i / 64 % v.len()] >> (i % 64) & 1 == 1 {
                            m.insert(*d);
                        }
                    }
                }
            }
            SetSpec::Range(a, b) => {
                let (a, b) = (*a as usize % n, *b as usize % n);
                let mut i = a;
                loop {
                    m.insert(discr[i]);
                    if i == b {
                        break;
                    }
                    i = (i + 1) % n;
                }
            }
            SetSpec::Word(w) => m.extend(discr.iter().filter(|x| **x / 64 == *w as u32 % words)),
            SetSpec::NotWord(w) => {
                m.extend(discr.iter().filter(|x| **x / 64 != *w as u32 % words))
            }
            SetSpec::WordEdges(lo, hi) => {
                m.extend(discr.iter().filter(|x| (*lo && **x % 64 == 0) || (*hi && **x % 64 == 63)))
            }
            SetSpec::Ends => {
                m.insert(discr[0]);
                m.insert(discr[n - 1]);
            }
            SetSpec::Tied(w, kind) => {
                m.extend(discr.iter().filter(|x| tied_word(*w, *kind, **x / 64) >> (**x % 64) & 1 == 1))
            }
            SetSpec::Band(k, mask) => {
                const AT: [u32; 8] = [0, 8, 16, 32, 64, 128, 192, 256];
                // the bands that have variants
                let bands: Vec<(u32, u32)> = (0..8)
                    .map(|i| (AT[i], AT.get(i + 1).copied().unwrap_or(u32::MAX)))
                    .filter(|x| discr.iter().any(|d| x.0 <= *d && *d < x.1))
                    .collect();
                let (lo, hi) = bands[*k as usize % bands.len()];
                let all = || discr.iter().filter(move |x| lo <= **x && **x < hi);
                m.extend(all().filter(|x| mask >> (**x % 64) & 1 == 1));
                if m.is_empty() {
                    m.extend(all());
                }
            }
            SetSpec::Stride(k, o) => {
                let k = (*k as usize % 7) + 2;
                m.extend(discr.iter().enumerate().filter(|x| x.0 % k == *o as usize % k).map(|x| x.1))
            }
        }
        m
    }
}

/// An integer or word pattern relative to the valid bits of a type.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BitsSpec {
    pub base: SetSpec,
    /// absolute bit numbers to set besides
    pub extra: Vec<u16>,
    /// bits next to (above or below) a variant, by index, to set besides
    pub near: Vec<(u16, bool)>,
    /// raw words xor-ed in
    pub raw: Vec<u64>,
    /// bits at these offsets relative to the number of bits of the destination or the storage
    pub at_width: Vec<(u8, i8)>,
}
impl BitsSpec {
    /// All set bits. `limit`: bits of the destination; bits beyond it are dropped.
    pub fn bits(&self, discr: &[u32], limit: u32) -> Model {
        // as words, since sets are slow under an interpreter
        let mut w: Vec<u64> = vec![0; self.raw.len()];
        let mut set = |x: u32| {
            let i = x as usize / 64;
            if x < limit {
                if i >= w.len() {
                    w.resize(i + 1, 0);
                }
                w[i] |= 1 << (x % 64);
            }
        };
        let n = discr.len();
        let max = discr.last().copied().unwrap_or(0);
        for b in self.base.model(discr) {
            set(b);
        }
        for b in &self.extra {
            set(*b as u32);
        }
        for (i, up) in &self.near {
            if n > 0 {
                let d = discr[*i as usize % n];
                set(if *up { d + 1 } else { d.saturating_sub(1) });
            }
        }
        for (x, raw) in w.iter_mut().zip(&self.raw) {
            *x ^= raw;
        }
        for (k, off) in &self.at_width {
            let base = match k % 8 {
                0 => 8,
                1 => 16,
                2 => 32,
                3 => 64,
                4 => 128,
                5 => limit,
                6 => max + 1,
                // some word behind the last
                _ => (max / 64 + 1) * 64 + *k as u32 / 8 * 64,
            };
            let x = base as i64 + *off as i64 % 3;
            if x >= 0 && x < limit as i64 {
                let i = x as usize / 64;
                if i >= w.len() {
                    w.resize(i + 1, 0);
                }
                w[i] |= 1 << (x % 64);
            }
        }
        let mut m = words_model(&w);
        m.retain(|x| *x < limit);
        m
    }
}

// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rhs {
    Var(u16),
    Set(SetSpec),
    /// a value convertible into a set that is neither
    Conv(SetSpec),
    /// the set itself
    Same,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MutOp {
    Insert(u16),
    Remove(u16),
    InsertAll(SetSpec),
    RemoveAll(SetSpec),
    Clear,
    ExtendVars(Vec<u16>),
    ExtendSets(Vec<SetSpec>),
    Or(Rhs),
    And(Rhs),
    Xor(Rhs),
    Sub(Rhs),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MutCase {
    pub init: SetSpec,
    pub ops: Vec<MutOp>,
}

// ---------------------------------------------------------------- C02, C03
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PairCase {
    pub a: SetSpec,
    pub b: SetSpec,
    /// how `b` relates to `a`: independent, subset, superset, equal, complement, one apart
    pub rel: u8,
    pub v: u16,
    pub w: u16,
}
impl PairCase {
    pub fn models(&self, discr: &[u32]) -> (Model, Model) {
        let a = self.a.model(discr);
        let b = self.b.model(discr);
        let b = match self.rel % 8 {
            0..=2 => b,
            3 => a.intersection(&b).copied().collect(),
            4 => a.union(&b).copied().collect(),
            5 => a.clone(),
            6 => discr.iter().copied().filter(|x| !a.contains(x)).collect(),
            _ => {
                let mut x = a.clone();
                if !discr.is_empty() {
                    let d = discr[self.v as usize % discr.len()];
                    if !x.remove(&d) {
                        x.insert(d);
                    }
                }
                x
            }
        };
        (a, b)
    }
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IterOp {
    Next,
    NextBack,
    Nth(u8),
    NthBack(u8),
    Hint,
    /// clone, drain the clone (by this adapter), go on with the original
    Clone(Drain),
    /// clone, go on with the clone, drain the original afterwards
    Swap(Drain),
    /// take some from a `by_ref` adapter
    ByRefTake(u8),
    ByRefRevTake(u8),
    Find(u16),
    RFind(u16),
    /// `position`, which consumes up to the element
    Position(u16),
    /// change the set the iterator was made from
    Mutate(u16),
    All(u16),
    Any(u16),
    /// stop after so many, from the front or the back
    TryFold(u8),
    TryRFold(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Drain {
    Collect,
    RevCollect,
    Fold,
    RFold,
    Last,
    Count,
    Min,
    Max,
    Skip(u8),
    SkipRev(u8),
    StepBy(u8),
    Take(u8),
    TakeRev(u8),
    Peekable,
    Chain,
    Zip,
    ForEach,
    RevNth(u8),
    Enumerate,
    RPosition(u16),
    AlternateEnds,
    Partition(u16),
    Cycle(u8),
    Inspect,
    Fuse,
    MapRev,
    IntoSet,
    IntoSetRev,
    /// one of the less usual adapters, and its parameter
    Other(u8, u16),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct IterCase {
    pub set: SetSpec,
    /// `into_iter` instead of `iter`
    pub into: bool,
    pub ops: Vec<IterOp>,
    pub end: Drain,
}

// ---------------------------------------------------------------- routes to a set
/// A way to obtain a set with given members.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Route {
    Insert,
    InsertRev,
    CollectShuffled(u64),
    Complement,
    DoubleComplement,
    UnionHalves(u64),
    RemoveFromAll,
    XorWithAll,
    Intersect(u64),
    Words(u8),
    WordsTruncated(u64),
    SliceTruncated(u64),
    Int,
    IntTruncated(u64),
    SumOnly,
    ChurnThenSame(u64),
    ViaIter,
    Difference(u64),
    Serde,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct OrdCase {
    pub sets: Vec<(SetSpec, Route)>,
    /// operations on collections: (kind, index of the set)
    pub ops: Vec<(u8, u8)>,
}

// ---------------------------------------------------------------- C06, C08
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ExportCase {
    pub set: SetSpec,
    /// keep only the members below this, if given (to hit the boundary of the integer widths)
    pub below: Option<u16>,
    pub route: Route,
    /// length of the destination relative to the words of the set
    pub len: u8,
    /// what the destination held
    pub stale: u64,
}

// ---------------------------------------------------------------- C07, C09
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ImportCase {
    pub bits: BitsSpec,
    /// remove invalid bits first
    pub clean: bool,
    /// number of words
    pub len: u8,
}

// ---------------------------------------------------------------- C11
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CollectCase {
    pub init: SetSpec,
    pub vars: Vec<u16>,
    pub sets: Vec<SetSpec>,
    pub v: u16,
}

// ---------------------------------------------------------------- C12, C22, C23
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ProgOp {
    New(u8),
    All(u8),
    Only(u8, u16),
    Spec(u8, SetSpec, Route),
    Copy(u8, u8),
    Mut(u8, MutOp),
    /// dst = a op b
    Alg(u8, u8, u8, u8),
    Not(u8, u8),
    /// dst = set op variant, variant op set
    VarOp(u8, u8, u16, u8),
    FromInt(u8, u8, ImportCase),
    FromWords(u8, ImportCase, bool),
    /// dst = import(export(src)) through a kind of integer, array, vector or serde
    Round(u8, u8, u8),
    /// part of the elements, by a partial iteration
    IterPart(u8, u8, u8, u8),
    Filter(u8, u8, u16),
    Sum(u8, u8, u8),
    /// a hostile serialized form: words and list items
    Deser(u8, BitsSpec, u8),
    Swap(u8, u8),
    Observe(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Program {
    pub ops: Vec<ProgOp>,
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SerCase {
    pub sets: Vec<SetSpec>,
    pub route: Route,
    pub format: u8,
    pub nest: u8,
    pub pad: u8,
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Unit,
    None,
    Some(Box<Val>),
    Bool(bool),
    U(u64),
    U128(u64, u64),
    I(i64),
    F(u64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    /// the name of a variant
    Name(u16),
    /// an integer given by bits
    Bits(BitsSpec),
    /// words given by bits, of a given number
    Words(BitsSpec, u8),
    Newtype(Box<Val>),
    Variant(u16),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HostileCase {
    pub val: Val,
    /// which input format
    pub format: u8,
    /// bytes damaged: (position, xor), truncation
    pub damage: Vec<(u16, u8)>,
    pub cut: Option<u16>,
    pub raw: Vec<u8>,
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FmtCase {
    pub set: SetSpec,
    pub shape: u8,
    pub width: u8,
    pub prec: u8,
    /// the sink fails from this byte on
    pub fail_at: Option<u16>,
    /// the sink fails only once, at this write
    pub fail_once: Option<u8>,
    pub nested: bool,
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ReprCase {
    pub set: SetSpec,
    pub route: Route,
    pub bits: BitsSpec,
    pub clean: bool,
    pub v: u16,
}

// ---------------------------------------------------------------- C22, C23
/// One input of any kind, for the runs under an interpreter.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyCase {
    Prog(Program),
    Mut(MutCase),
    Pair(PairCase),
    Iter(IterCase),
    Ord(OrdCase),
    IntOut(ExportCase),
    IntIn(ImportCase),
    ArrOut(ExportCase),
    ArrIn(ImportCase),
    Repr(ReprCase),
    Collect(CollectCase),
    Fmt(FmtCase),
}
impl AnyCase {
    pub fn kind(&self) -> &'static str {
        match self {
            AnyCase::Prog(_) => "program",
            AnyCase::Mut(_) => "mutation history",
            AnyCase::Pair(_) => "algebra and queries",
            AnyCase::Iter(_) => "iterator history",
            AnyCase::Ord(_) => "equality, hashing, ordering",
            AnyCase::IntOut(_) => "integer export",
            AnyCase::IntIn(_) => "integer import",
            AnyCase::ArrOut(_) => "array export",
            AnyCase::ArrIn(_) => "array import",
            AnyCase::Repr(_) => "memory layout",
            AnyCase::Collect(_) => "collecting",
            AnyCase::Fmt(_) => "formatting",
        }
    }
}
