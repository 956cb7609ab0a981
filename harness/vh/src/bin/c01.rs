use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, MutCase, vint::mutate::run);
    vrun::main(vrun::Check {
        property: "C01",
        rule: "random sequences of insert, remove, insert_all, remove_all, clear, extend, |=, &=, ^= and -= on a set and on a BTreeSet of discriminants, compared after every step by asking for every variant, with the booleans insert and remove return; each case is run on one enum, every enum of the catalogue and of this seed gets its share; non-trivial: at least two steps changed the membership",
        strategy: |c| s::mut_case(if c.thorough { 120 } else { 40 }),
        quick: 6000,
        thorough: 62500,
        entries,
    })
}
