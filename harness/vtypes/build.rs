fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_RANDOM_TYPES");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let n: usize =
        std::env::var("VERIF_RANDOM_TYPES").ok().and_then(|x| x.parse().ok()).unwrap_or(24);
    // definitions that do not compile, left out so that the others can be checked
    println!("cargo:rerun-if-env-changed=VERIF_EXCLUDE");
    let out_of = std::env::var("VERIF_EXCLUDE").unwrap_or_default();
    let out_of: Vec<&str> = out_of.split(',').collect();
    let mut defs = vgen::types_for(seed, n);
    defs.retain(|x| !out_of.contains(&x.name.as_str()));
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("types.rs");
    std::fs::write(out, vgen::types_module(&defs)).unwrap();
}
