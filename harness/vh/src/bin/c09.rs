use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, ImportCase, vint::arrays::import);
    vrun::main(vrun::Check {
        property: "C09",
        rule: "word patterns of many lengths with gaps, neighbours of variants and invalid bits in any word; array and slice, checked, try, truncated and unchecked import against the valid bits, then export and import again; non-trivial: some valid bit",
        strategy: |c| { let _ = c; s::import_case() },
        quick: 10000,
        thorough: 62500,
        entries,
    })
}
