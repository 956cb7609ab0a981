use vcase::*;
use vh::*;
use vrun::strat as s;

fn main() {
    let entries = entries!(ser_types, HostileCase, vint::hostile::run);
    vrun::main(vrun::Check {
        property: "C15",
        rule: "structured values (bits, words, variant names, maps, wrong shapes, nested values) and damaged or random bytes as JSON (text, reader, value), bincode, CBOR (definite, indefinite, value) and tokens with wrong size hints, alone and inside a tuple; compared with what serde reads from the same input as plain integer, list or map; non-trivial: the plain data was readable and not empty",
        strategy: |c| { let _ = c; s::hostile() },
        quick: 30000,
        thorough: 125000,
        entries,
    })
}
