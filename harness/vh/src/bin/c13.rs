use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(ser_types, SerCase, vint::sercheck::run);
    vrun::main(vrun::Check {
        property: "C13",
        rule: "sets by random routes, alone or nested in vectors, structs, tuples, enums, maps and flattened structs, written and read back in JSON (text, bytes, reader, value), bincode, CBOR (bytes, value) and a token format with every combination of size hints; non-trivial: a non-empty set",
        strategy: |c| { let _ = c; s::ser_case() },
        quick: 10000,
        thorough: 62500,
        entries,
    })
}
