use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, IterCase, vint::iter::run);
    vrun::main(vrun::Check {
        property: "C04",
        rule: "random interleavings of next, next_back, nth, nth_back, clones, by_ref adapters, searches and mutations of the source set, then one of 28 consuming adapters, against a VecDeque of the members; size_hint and len checked after every step; non-trivial: a set of two or more members, consumed from at least one end",
        strategy: |c| s::iter_case(if c.thorough { 80 } else { 30 }),
        quick: 12000,
        thorough: 100000,
        entries,
    })
}
