//! The checks that work on whole programs: what the derive accepts, refuses and generates.
mod c16;
mod c17;
mod c18;
mod c20;
mod c21;
mod driver;
mod engine;
mod pdef;

fn main() {
    let id = std::env::var("VERIF_PROPERTY").expect("VERIF_PROPERTY");
    let cfg = vrun::Cfg::from_env();
    let rc = match id.as_str() {
        "C16" => driver::main(c16::check(&cfg)),
        "C17" => driver::main(c17::check(&cfg)),
        "C18" => driver::main(c18::check(&cfg)),
        "C20" => driver::main(c20::check(&cfg)),
        "C21" => driver::main(c21::check(&cfg)),
        x => panic!("no program check {}", x),
    };
    std::process::exit(rc);
}
