//! ML-KEM explorations. `mlk C01 [--tier quick|thorough] [--out F] [--section S --index I]`
#[path = "../../common/scheme.rs"]
#[macro_use]
mod scheme;
#[path = "../../common/script.rs"]
mod script;
#[path = "../../common/near.rs"]
mod near;
#[path = "../../common/shareable.rs"]
#[macro_use]
mod shareable;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod hist;
mod ring;
mod rngs;
mod sampling;
mod packing;
mod total;

use vlib::engine::Run;

pub const HOOKS: bool = cfg!(kems_verif);

/// Checks the models against the standards' published vectors, as part of the run.
pub fn validate_model(run: &mut Run) {
    if run.replaying() {
        return;
    }
    vlib::mlkem::self_check();
    let n = vlib::vectors::mlkem_vectors();
    run.note(format!("model validated against {n} NIST ACVP vectors and its own definitions before the exploration"));
}

fn main() {
    let mut run = Run::from_args();
    if !HOOKS {
        run.note("built without the kems_verif hooks: public API only");
    }
    let what = run.args.first().cloned().unwrap_or_default();
    match what.as_str() {
        "C01" => c01::run(&mut run),
        "C02" => c02::run(&mut run),
        "C03" => c03::run(&mut run),
        "C04" => c04::run(&mut run),
        "C05" => c05::run(&mut run),
        "C06" => c06::run(&mut run),
        "C07" => ring::run(&mut run),
        "C08" => sampling::uniform(&mut run),
        "C09" => sampling::cbd(&mut run),
        "C10" => packing::run(&mut run),
        "C11" => rngs::run(&mut run),
        "C12" => hist::run(&mut run),
        "C15" => total::run(&mut run),
        _ => {
            eprintln!("unknown exploration {what}");
            std::process::exit(2);
        }
    }
    run.finish()
}
