use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, ExportCase, vint::ints::export);
    vrun::main(vrun::Check {
        property: "C06",
        rule: "sets built by random routes and cut at the integer widths, as_, try_as_ and truncated export to the six integer types against the number computed from the members; non-trivial: two members, or one beyond 64 bits",
        strategy: |c| { let _ = c; s::export_case() },
        quick: 20000,
        thorough: 100000,
        entries,
    })
}
