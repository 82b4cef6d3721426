//! Simulations of the command line program.  The generators and reference
//! models are those of the simulations of the main crate.
#![allow(dead_code)]
#[macro_use]
extern crate rustomata;
#[path = "../../full/src/cs.rs"]
mod cs;
#[path = "../../full/src/machine.rs"]
mod machine;
#[path = "../../full/src/mcfg_gen.rs"]
mod mcfg_gen;
#[path = "../../full/src/recognition.rs"]
mod recognition;
#[path = "../../full/src/seeds.rs"]
mod seeds;

mod commands;
mod streams;

fn main() {
    simkit::main_with(&[streams::C09, streams::C10, commands::CHECK])
}
