use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, OrdCase, vint::laws::run);
    vrun::main(vrun::Check {
        property: "C05",
        rule: "up to six sets built by random routes, all pairs and triples checked for the laws of equality, hash and order; random histories on HashMap and BTreeMap keyed by them against a map keyed by the membership; non-trivial: two sets are equal and two differ",
        strategy: |c| s::ord_case(if c.thorough { 60 } else { 24 }),
        quick: 8000,
        thorough: 62500,
        entries,
    })
}
