use vcase::*;
use vh::*;
use vrun::strat as s;

fn program_run<T: vint::Subject>(c: &Program, cov: &mut vint::Cov) -> Result<(), String> {
    vint::program::run::<T>(c, cov, &mut 0)
}

fn main() {
    let entries = entries!(all_types, Program, program_run);
    vrun::main(vrun::Check {
        property: "C12",
        rule: "random programs over four sets mixing all constructors, mutations, algebra, conversions, iteration and deserialization of hostile data; after every step every observation of the new set is compared with that of a set with the same members made by insertion, and all other sets must be unchanged; non-trivial: three kinds of operation and two steps produced another set of two or more members",
        strategy: |c| s::program(if c.thorough { 80 } else { 30 }),
        quick: 3000,
        thorough: 25000,
        entries,
    })
}
