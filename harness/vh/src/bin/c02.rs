use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let mut entries = entries!(all_types, PairCase, vint::algebra::run);
    entries.extend(entries!(ops_types, PairCase, vint::algebra::run_ops));
    vrun::main(vrun::Check {
        property: "C02",
        rule: "pairs of sets in every relation (independent, nested, equal, complementary, one apart) and variants, every spelling of every operation compared with BTreeSet algebra; non-trivial: intersection, difference and complement are all non-empty, or derived operators were used",
        strategy: |c| { let _ = c; s::pair() },
        quick: 9000,
        thorough: 75000,
        entries,
    })
}
