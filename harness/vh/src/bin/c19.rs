use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, FmtCase, vint::fmtcheck::run);
    vrun::main(vrun::Check {
        property: "C19",
        rule: "sets formatted with Debug and Display under all combinations of flags, fill, alignment, width and precision, alone and nested, against the variants formatted one by one under the same parameters; sinks failing at a random byte or write; non-trivial: two members",
        strategy: |c| { let _ = c; s::fmt_case() },
        quick: 20000,
        thorough: 75000,
        entries,
    })
}
