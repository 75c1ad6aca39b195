//! Checks that reach private items of the modules without cryptography.
#![allow(dead_code, unused_imports)]
include!("../root.rs");

#[path = "../../../shared/gmsg.rs"]
mod gmsg;
#[path = "../../../shared/pvchecks.rs"]
mod pvchecks;

use vcommon::{Config, Runner};

fn main() {
    let mut run = Runner::new(Config::from_args("pv"));
    match run.cfg.property.as_str() {
        "C04" => pvchecks::c04(&mut run),
        "C08" => pvchecks::c08(&mut run),
        "C09" => pvchecks::c09(&mut run),
        "C10" => pvchecks::c10(&mut run),
        "C14" => pvchecks::c14(&mut run),
        "C21" => pvchecks::c21(&mut run),
        p => {
            eprintln!("no such check here: {}", p);
            std::process::exit(2)
        }
    }
    run.finish()
}
