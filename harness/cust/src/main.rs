//! C22: the KEM over user-defined parameter sets.
#[path = "../../common/scheme.rs"]
#[macro_use]
mod scheme;
mod one;
mod sets;
use vlib::engine::Run;

fn main() {
    let mut run = Run::from_args();
    if !run.replaying() {
        vlib::mlkem::self_check();
        let n = vlib::vectors::mlkem_vectors();
        run.note(format!("model validated against {n} NIST ACVP vectors before the exploration; it takes the parameters as values"));
    }
    if run.args.first().map(|s| s.as_str()) != Some("C22") {
        eprintln!("unknown exploration");
        std::process::exit(2);
    }
    one::run(&mut run);
    run.finish()
}
