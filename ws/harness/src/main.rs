//! The whole library under generated, hostile and fault-injected workloads, watched by monitors.
#![allow(dead_code, unused_imports)]
mod dc {
    pub use didcomm::*;
}
mod calls;
mod hostile;
mod refc;
mod refjose;
mod scn;
mod world;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c11;
mod c12;
mod c13;
mod c09;
mod c10;
mod c18;
mod c17;
mod c21;
mod c22;
mod c23;
mod c15;
mod c20;
#[path = "../../shared/gmsg.rs"]
mod gmsg;

use vcommon::{Config, Runner};

fn main() {
    let mut run = Runner::new(Config::from_args("vh"));
    match run.cfg.property.as_str() {
        "C01" => c01::run(&mut run),
        "C02" => c02::run(&mut run),
        "C03" => c03::run(&mut run),
        "C04" => c04::run(&mut run),
        "C05" => c05::run(&mut run),
        "C06" => c06::run(&mut run),
        "C07" => c07::run(&mut run),
        "C08" => c08::run(&mut run),
        "C11" => c11::run(&mut run),
        "C12" => c12::run(&mut run),
        "C13" => c13::run(&mut run),
        "C09" => c09::run(&mut run),
        "C10" => c10::run(&mut run),
        "C18" => c18::run(&mut run),
        "C17" => c17::run(&mut run),
        "C21" => c21::run(&mut run),
        "C22" => c22::run(&mut run),
        "C23" => c23::run(&mut run),
        "C15" => c15::run(&mut run),
        "C20" => c20::run(&mut run),
        p => {
            eprintln!("no such check here: {}", p);
            std::process::exit(2)
        }
    }
    run.finish()
}
