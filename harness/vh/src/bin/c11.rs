use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, CollectCase, vint::collect::run);
    vrun::main(vrun::Check {
        property: "C11",
        rule: "random sequences of variants and of sets, collected, extended and summed by value and by reference; constructors and deprecated constants; non-trivial: two distinct variants, two members over the sets, and a non-empty set to extend",
        strategy: |c| { let _ = c; s::collect_case() },
        quick: 8000,
        thorough: 75000,
        entries,
    })
}
