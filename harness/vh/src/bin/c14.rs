use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(all_types, SerCase, vint::sercheck::form);
    vrun::main(vrun::Check {
        property: "C14",
        rule: "sets by random routes serialized into a recording serializer, human-readable and not; the calls and announced lengths compared with those computed from the membership and the attributes; non-trivial: two members",
        strategy: |c| { let _ = c; s::ser_case() },
        quick: 10000,
        thorough: 75000,
        entries,
    })
}
