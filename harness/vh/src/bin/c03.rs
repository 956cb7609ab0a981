use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let mut entries = entries!(all_types, PairCase, vint::algebra::queries);
    entries.extend(entries!(ops_types, PairCase, vint::algebra::queries_ops));
    vrun::main(vrun::Check {
        property: "C03",
        rule: "pairs of sets in every relation, all queries and all comparisons with every variant compared with the BTreeSet model; non-trivial: both sets non-empty",
        strategy: |c| { let _ = c; s::pair() },
        quick: 12000,
        thorough: 75000,
        entries,
    })
}
