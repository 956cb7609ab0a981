use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, ImportCase, vint::ints::import);
    vrun::main(vrun::Check {
        property: "C07",
        rule: "bit patterns made of valid sets, neighbours of variants, width boundaries and raw words, for the six integer types; from_, try_from_, truncated and (on valid patterns) unchecked import against the valid bits; non-trivial: some type saw a pattern with a valid bit",
        strategy: |c| { let _ = c; s::import_case() },
        quick: 10000,
        thorough: 75000,
        entries,
    })
}
