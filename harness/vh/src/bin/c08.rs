use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, ExportCase, vint::arrays::export);
    vrun::main(vrun::Check {
        property: "C08",
        rule: "sets built by random routes, destinations of lengths around the words of the set and of the enum with stale contents, array, slice and vector forms against words computed from the members; non-trivial: two members, and several words or a destination of another length than needed",
        strategy: |c| { let _ = c; s::export_case() },
        quick: 9000,
        thorough: 75000,
        entries,
    })
}
