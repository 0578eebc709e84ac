//! Exploration of x-wing.
#[path = "../../common/near.rs"]
mod near;
#[path = "../../common/script.rs"]
mod script;
#[macro_use]
#[path = "../../common/shareable.rs"]
mod shareable;

mod codec;
mod derive;
mod equal;
mod face;
mod hist;
#[cfg(feature = "getrandom")]
mod os;
mod reject;
mod rngs;
mod total;

use vlib::engine::Run;

pub fn validate_model(run: &mut Run) {
    if run.replaying() {
        return;
    }
    let (a, b) = (vlib::vectors::mlkem_vectors(), vlib::vectors::xwing_vectors());
    run.note(format!("the reference model reproduces {a} published ML-KEM vectors and all {b} published X-Wing vectors"));
}

fn main() {
    let mut run = Run::from_args();
    vlib::mlkem::self_check();
    vlib::x25519::self_check();
    let what = run.args.first().cloned().unwrap_or_default();
    match what.as_str() {
        "C06" => equal::run(&mut run),
        "C11" => rngs::run(&mut run),
        "C12" => hist::run(&mut run),
        "C15" => total::run(&mut run),
        "C16" => derive::run(&mut run),
        "C17" => reject::run(&mut run),
        "C18" => codec::run(&mut run),
        #[cfg(feature = "getrandom")]
        "C23" => os::run(&mut run),
        _ => {
            eprintln!("unknown exploration {what}");
            std::process::exit(2);
        }
    }
    run.finish()
}
