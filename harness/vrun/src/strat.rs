//! Strategies for the inputs of the runtime checks.
use proptest::collection::vec;
use proptest::prelude::*;
use vcase::*;

pub fn ix() -> impl Strategy<Value = u16> + Clone {
    // small indices and indices near the last variant are the ones at the ends of words
    prop_oneof![3 => 0u16..12, 5 => 0u16..512, 1 => any::<u16>()]
}
fn word() -> impl Strategy<Value = u64> + Clone {
    prop_oneof![
        4 => any::<u64>(),
        1 => Just(0u64),
        1 => Just(!0u64),
        2 => (0u32..64).prop_map(|x| 1u64 << x),
        1 => (0u32..64).prop_map(|x| !(1u64 << x)),
        1 => (any::<u64>(), any::<u64>(), any::<u64>()).prop_map(|x| x.0 & x.1 & x.2),
    ]
}
pub fn set() -> BoxedStrategy<SetSpec> {
    prop_oneof![
        2 => Just(SetSpec::Empty),
        2 => Just(SetSpec::All),
        3 => ix().prop_map(SetSpec::One),
        2 => ix().prop_map(SetSpec::AllBut),
        6 => vec(ix(), 0..10).prop_map(SetSpec::Pick),
        6 => vec(word(), 1..7).prop_map(SetSpec::Mask),
        2 => (ix(), ix()).prop_map(|x| SetSpec::Range(x.0, x.1)),
        2 => (0u8..8).prop_map(SetSpec::Word),
        1 => (0u8..8).prop_map(SetSpec::NotWord),
        2 => any::<(bool, bool)>().prop_map(|x| SetSpec::WordEdges(x.0, x.1)),
        1 => Just(SetSpec::Ends),
        1 => any::<(u8, u8)>().prop_map(|x| SetSpec::Stride(x.0, x.1)),
        2 => (word(), any::<u8>()).prop_map(|x| SetSpec::Tied(x.0, x.1)),
        3 => (any::<u8>(), word()).prop_map(|x| SetSpec::Band(x.0, x.1)),
    ]
    .boxed()
}
/// words in a row that cancel or repeat one another, from some position on
fn tied_words() -> impl Strategy<Value = Vec<u64>> + Clone {
    (0usize..6, 2u32..4, word(), any::<u8>()).prop_map(|(start, n, w, kind)| {
        let mut v = vec![0; start];
        v.extend((0..n).map(|i| tied_word(w, kind, i)));
        v
    })
}
pub fn bits() -> BoxedStrategy<BitsSpec> {
    (
        set(),
        prop_oneof![6 => Just(vec![]), 2 => vec(0u16..300, 1..4)],
        prop_oneof![6 => Just(vec![]), 3 => vec((ix(), any::<bool>()), 1..4)],
        prop_oneof![8 => Just(vec![]), 2 => vec(word(), 1..5), 2 => tied_words()],
        prop_oneof![5 => Just(vec![]), 3 => vec((any::<u8>(), -2i8..3), 1..3)],
    )
        .prop_map(|(base, extra, near, raw, at_width)| BitsSpec { base, extra, near, raw, at_width })
        .boxed()
}
pub fn rhs() -> BoxedStrategy<Rhs> {
    prop_oneof![
        3 => ix().prop_map(Rhs::Var),
        5 => set().prop_map(Rhs::Set),
        2 => set().prop_map(Rhs::Conv),
        1 => Just(Rhs::Same),
    ]
    .boxed()
}
pub fn mut_op() -> BoxedStrategy<MutOp> {
    prop_oneof![
        8 => ix().prop_map(MutOp::Insert),
        8 => ix().prop_map(MutOp::Remove),
        4 => set().prop_map(MutOp::InsertAll),
        4 => set().prop_map(MutOp::RemoveAll),
        1 => Just(MutOp::Clear),
        2 => vec(ix(), 0..6).prop_map(MutOp::ExtendVars),
        2 => vec(set(), 0..4).prop_map(MutOp::ExtendSets),
        3 => rhs().prop_map(MutOp::Or),
        3 => rhs().prop_map(MutOp::And),
        3 => rhs().prop_map(MutOp::Xor),
        3 => rhs().prop_map(MutOp::Sub),
    ]
    .boxed()
}
pub fn mut_case(n: usize) -> BoxedStrategy<MutCase> {
    (set(), vec(mut_op(), 1..n)).prop_map(|(init, ops)| MutCase { init, ops }).boxed()
}
pub fn pair() -> BoxedStrategy<PairCase> {
    (set(), set(), 0u8..8, ix(), ix())
        .prop_map(|(a, b, rel, v, w)| PairCase { a, b, rel, v, w })
        .boxed()
}
pub fn drain() -> BoxedStrategy<Drain> {
    use Drain::*;
    prop_oneof![
        4 => prop::sample::select(vec![
            Collect, RevCollect, Fold, RFold, Last, Count, Min, Max, Peekable, Chain, Zip, ForEach,
            Enumerate, AlternateEnds, Inspect, Fuse, MapRev, IntoSet, IntoSetRev,
        ]),
        1 => (0u8..12).prop_map(Skip),
        1 => (0u8..12).prop_map(SkipRev),
        1 => (0u8..5).prop_map(StepBy),
        1 => (0u8..12).prop_map(Take),
        1 => (0u8..12).prop_map(TakeRev),
        1 => (0u8..12).prop_map(RevNth),
        1 => ix().prop_map(RPosition),
        1 => ix().prop_map(Partition),
        1 => (0u8..3).prop_map(Cycle),
        4 => (any::<u8>(), ix()).prop_map(|(k, i)| Other(k, i)),
    ]
    .boxed()
}
pub fn iter_op() -> BoxedStrategy<IterOp> {
    let k = || prop_oneof![6 => 0u8..5, 1 => 0u8..80, 1 => any::<u8>()];
    prop_oneof![
        8 => Just(IterOp::Next),
        8 => Just(IterOp::NextBack),
        3 => k().prop_map(IterOp::Nth),
        3 => k().prop_map(IterOp::NthBack),
        2 => Just(IterOp::Hint),
        2 => drain().prop_map(IterOp::Clone),
        2 => drain().prop_map(IterOp::Swap),
        1 => k().prop_map(IterOp::ByRefTake),
        1 => k().prop_map(IterOp::ByRefRevTake),
        1 => ix().prop_map(IterOp::Find),
        1 => ix().prop_map(IterOp::RFind),
        1 => ix().prop_map(IterOp::Position),
        1 => ix().prop_map(IterOp::Mutate),
        1 => ix().prop_map(IterOp::All),
        1 => ix().prop_map(IterOp::Any),
        1 => k().prop_map(IterOp::TryFold),
        1 => k().prop_map(IterOp::TryRFold),
    ]
    .boxed()
}
pub fn iter_case(n: usize) -> BoxedStrategy<IterCase> {
    (set(), any::<bool>(), vec(iter_op(), 0..n), drain())
        .prop_map(|(set, into, ops, end)| IterCase { set, into, ops, end })
        .boxed()
}
pub fn route() -> BoxedStrategy<Route> {
    use Route::*;
    prop_oneof![
        8 => prop::sample::select(vec![
            Insert, InsertRev, Complement, DoubleComplement, RemoveFromAll, XorWithAll, Int,
            SumOnly, ViaIter, Serde,
        ]),
        1 => any::<u64>().prop_map(CollectShuffled),
        1 => any::<u64>().prop_map(UnionHalves),
        1 => any::<u64>().prop_map(Intersect),
        1 => (0u8..6).prop_map(Words),
        1 => any::<u64>().prop_map(WordsTruncated),
        1 => any::<u64>().prop_map(SliceTruncated),
        1 => any::<u64>().prop_map(IntTruncated),
        1 => any::<u64>().prop_map(ChurnThenSame),
        1 => any::<u64>().prop_map(Difference),
    ]
    .boxed()
}
pub fn ord_case(n: usize) -> BoxedStrategy<OrdCase> {
    (vec((set(), route()), 1..7), vec((any::<u8>(), any::<u8>()), 0..n))
        .prop_map(|(sets, ops)| OrdCase { sets, ops })
        .boxed()
}
pub fn export_case() -> BoxedStrategy<ExportCase> {
    (
        set(),
        prop_oneof![
            5 => Just(None),
            4 => prop::sample::select(vec![7u16, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192]).prop_map(Some),
            1 => (0u16..400).prop_map(Some),
        ],
        route(),
        any::<u8>(),
        prop_oneof![2 => Just(!0u64), 2 => any::<u64>(), 1 => Just(0u64)],
    )
        .prop_map(|(set, below, route, len, stale)| ExportCase { set, below, route, len, stale })
        .boxed()
}
pub fn import_case() -> BoxedStrategy<ImportCase> {
    (bits(), any::<bool>(), any::<u8>())
        .prop_map(|(bits, clean, len)| ImportCase { bits, clean, len })
        .boxed()
}
pub fn collect_case() -> BoxedStrategy<CollectCase> {
    (set(), vec(ix(), 0..20), vec(set(), 0..6), ix())
        .prop_map(|(init, vars, sets, v)| CollectCase { init, vars, sets, v })
        .boxed()
}
pub fn prog_op() -> BoxedStrategy<ProgOp> {
    let k = any::<u8>;
    prop_oneof![
        1 => k().prop_map(ProgOp::New),
        1 => k().prop_map(ProgOp::All),
        1 => (k(), ix()).prop_map(|x| ProgOp::Only(x.0, x.1)),
        3 => (k(), set(), route()).prop_map(|x| ProgOp::Spec(x.0, x.1, x.2)),
        1 => (k(), k()).prop_map(|x| ProgOp::Copy(x.0, x.1)),
        5 => (k(), mut_op()).prop_map(|x| ProgOp::Mut(x.0, x.1)),
        3 => (k(), k(), k(), k()).prop_map(|x| ProgOp::Alg(x.0, x.1, x.2, x.3)),
        2 => (k(), k()).prop_map(|x| ProgOp::Not(x.0, x.1)),
        2 => (k(), k(), ix(), k()).prop_map(|x| ProgOp::VarOp(x.0, x.1, x.2, x.3)),
        3 => (k(), k(), import_case()).prop_map(|x| ProgOp::FromInt(x.0, x.1, x.2)),
        3 => (k(), import_case(), any::<bool>()).prop_map(|x| ProgOp::FromWords(x.0, x.1, x.2)),
        3 => (k(), k(), k()).prop_map(|x| ProgOp::Round(x.0, x.1, x.2)),
        2 => (k(), k(), k(), k()).prop_map(|x| ProgOp::IterPart(x.0, x.1, x.2, x.3)),
        1 => (k(), k(), ix()).prop_map(|x| ProgOp::Filter(x.0, x.1, x.2)),
        1 => (k(), k(), k()).prop_map(|x| ProgOp::Sum(x.0, x.1, x.2)),
        3 => (k(), bits(), k()).prop_map(|x| ProgOp::Deser(x.0, x.1, x.2)),
        1 => (k(), k()).prop_map(|x| ProgOp::Swap(x.0, x.1)),
        1 => k().prop_map(ProgOp::Observe),
    ]
    .boxed()
}
pub fn program(n: usize) -> BoxedStrategy<Program> {
    vec(prog_op(), 1..n).prop_map(|ops| Program { ops }).boxed()
}
pub fn ser_case() -> BoxedStrategy<SerCase> {
    (vec(set(), 1..4), route(), 0u8..9, 0u8..12, any::<u8>())
        .prop_map(|(sets, route, format, nest, pad)| SerCase { sets, route, format, nest, pad })
        .boxed()
}
pub fn val() -> BoxedStrategy<Val> {
    let text = prop_oneof![
        Just("true".to_string()),
        Just("".to_string()),
        Just("V0".to_string()),
        Just("v0".to_string()),
        Just("V1 ".to_string()),
        Just("0".to_string()),
        "[ -~]{0,6}",
    ];
    let name = prop_oneof![4 => ix().prop_map(Val::Name), 1 => ix().prop_map(Val::Variant)].boxed();
    let leaf = prop_oneof![
        1 => Just(Val::Unit),
        1 => Just(Val::None),
        2 => any::<bool>().prop_map(Val::Bool),
        4 => prop_oneof![0u64..2000, any::<u64>()].prop_map(Val::U),
        1 => any::<(u64, u64)>().prop_map(|x| Val::U128(x.0, x.1)),
        1 => any::<i64>().prop_map(Val::I),
        1 => prop_oneof![Just(1.0f64.to_bits()), any::<f64>().prop_map(|x| x.to_bits())].prop_map(Val::F),
        2 => text.prop_map(Val::Str),
        1 => vec(any::<u8>(), 0..12).prop_map(Val::Bytes),
        3 => name.clone(),
    ]
    .boxed();
    let any_val = leaf.clone().prop_recursive(3, 24, 6, |x| {
        prop_oneof![
            vec(x.clone(), 0..6).prop_map(Val::Seq),
            vec((x.clone(), x.clone()), 0..5).prop_map(Val::Map),
            x.clone().prop_map(|x| Val::Some(Box::new(x))),
            x.prop_map(|x| Val::Newtype(Box::new(x))),
        ]
    });
    let elem = prop_oneof![12 => name.clone(), 1 => leaf.clone()];
    let flag = prop_oneof![12 => any::<bool>().prop_map(Val::Bool), 1 => leaf.clone()];
    prop_oneof![
        8 => bits().prop_map(Val::Bits),
        8 => (bits(), any::<u8>()).prop_map(|x| Val::Words(x.0, x.1)),
        6 => vec(name.clone(), 0..9).prop_map(Val::Seq),
        3 => vec(elem.clone(), 0..7).prop_map(Val::Seq),
        6 => vec((name, any::<bool>().prop_map(Val::Bool)), 0..9).prop_map(Val::Map),
        3 => vec((elem, flag), 0..7).prop_map(Val::Map),
        2 => vec(prop_oneof![6 => any::<u64>().prop_map(Val::U), 1 => leaf], 0..9).prop_map(Val::Seq),
        5 => any_val,
    ]
    .boxed()
}
pub fn hostile() -> BoxedStrategy<HostileCase> {
    (
        val(),
        any::<u8>(),
        prop_oneof![5 => Just(vec![]), 3 => vec((any::<u16>(), any::<u8>()), 1..4)],
        prop_oneof![6 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![12 => Just(vec![]), 1 => vec(any::<u8>(), 0..40), 1 => "[\\[\\]{}\",:0-9a-zVtrue ]{0,30}".prop_map(|x| x.into_bytes())],
    )
        .prop_map(|(val, format, damage, cut, raw)| HostileCase { val, format, damage, cut, raw })
        .boxed()
}
pub fn fmt_case() -> BoxedStrategy<FmtCase> {
    (
        set(),
        any::<u8>(),
        0u8..40,
        0u8..12,
        prop_oneof![3 => Just(None), 1 => (0u16..200).prop_map(Some)],
        prop_oneof![4 => Just(None), 1 => (0u8..40).prop_map(Some)],
        any::<bool>(),
    )
        .prop_map(|(set, shape, width, prec, fail_at, fail_once, nested)| FmtCase { set, shape, width, prec, fail_at, fail_once, nested })
        .boxed()
}
pub fn repr_case() -> BoxedStrategy<ReprCase> {
    (set(), route(), bits(), any::<bool>(), ix())
        .prop_map(|(set, route, bits, clean, v)| ReprCase { set, route, bits, clean, v })
        .boxed()
}
