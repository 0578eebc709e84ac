//! Exploration of dhkem.
#[path = "../../common/near.rs"]
mod near;
#[path = "../../common/script.rs"]
mod script;
#[macro_use]
#[path = "../../common/shareable.rs"]
mod shareable;

#[macro_use]
mod face;
mod exchange;
mod hist;
mod model;
mod rngs;
mod total;
mod wrap;

use face::Dh;
use vlib::engine::Run;

fn main() {
    let mut run = Run::from_args();
    let what = run.args.first().cloned().unwrap_or_default();
    if !run.replaying() && what != "C20" {
        std::thread::scope(|s| {
            for i in 0..5 {
                s.spawn(move || with_dh!(i, D => D::check()));
            }
        });
        run.note("the reference arithmetic was checked against the curves' definitions (moduli, base points, orders) and RFC 7748 vectors before the exploration");
    }
    match what.as_str() {
        "C11" => rngs::run(&mut run),
        "C12" => hist::run(&mut run),
        "C15" => total::run(&mut run),
        "C19" => exchange::run(&mut run),
        "C20" => wrap::run(&mut run),
        _ => {
            eprintln!("unknown exploration {what}");
            std::process::exit(2);
        }
    }
    run.finish()
}
