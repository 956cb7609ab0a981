use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(repr_types, ReprCase, vint::reprs::run);
    vrun::main(vrun::Check {
        property: "C10",
        rule: "sets built by random routes and bit patterns for enums with an explicit integer representation; memory read back as the integer, all conversions, also in constants; non-trivial: two members",
        strategy: |c| { let _ = c; s::repr_case() },
        quick: 40000,
        thorough: 250000,
        entries,
    })
}
