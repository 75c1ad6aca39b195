//! Checks that need only public items of the modules without cryptography.
#![allow(dead_code, unused_imports)]
include!("../root.rs");

#[path = "../../../shared/c10e.rs"]
mod c10e;
#[path = "../../../shared/c14.rs"]
mod c14;
#[path = "../../../shared/c15.rs"]
mod c15;
#[path = "../../../shared/c16.rs"]
mod c16;
#[path = "../../../shared/gdoc.rs"]
mod gdoc;
#[path = "../../../shared/gmsg.rs"]
mod gmsg;

use vcommon::{Config, Runner};

fn main() {
    let mut run = Runner::new(Config::from_args("pp"));
    match run.cfg.property.as_str() {
        "C10" => c10e::run(&mut run),
        "C14" => c14::run(&mut run),
        "C15" => c15::run(&mut run),
        "C16" => c16::run(&mut run),
        p => {
            eprintln!("no such check here: {}", p);
            std::process::exit(2)
        }
    }
    run.finish()
}
