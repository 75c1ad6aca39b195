//! The JavaScript (wasm) interface against the core library.
#![allow(dead_code, unused_imports)]
mod dc {
    pub use didcomm::*;
}
#[path = "../../harness/src/calls.rs"]
mod calls;
#[path = "../../shared/gmsg.rs"]
mod gmsg;
#[path = "../../harness/src/refc.rs"]
mod refc;
#[path = "../../harness/src/refjose.rs"]
mod refjose;
#[path = "../../harness/src/scn.rs"]
mod scn;
#[path = "../../harness/src/world.rs"]
mod world;

mod c24;

use vcommon::{Config, Runner};

fn main() {
    let mut run = Runner::new(Config::from_args("vw"));
    match run.cfg.property.as_str() {
        "C24" => c24::run(&mut run),
        p => {
            eprintln!("no such check here: {}", p);
            std::process::exit(2)
        }
    }
    run.finish()
}
