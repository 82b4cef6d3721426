//! Simulations of the main crate.
#[macro_use]
extern crate rustomata;
mod automata_text;
mod collections;
mod conversions;
mod cs;
mod export;
mod gen;
mod gorn;
mod grammar_text;
mod lines;
mod machine;
mod mcfg_gen;
mod picky;
mod recognition;
mod seeds;
mod stored;
mod text;
mod treebank_text;
mod versions;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "million" {
        return versions::million(&args[2]);
    }
    simkit::main_with(&[
        grammar_text::CFG_CHECK,
        grammar_text::PMCFG_CHECK,
        treebank_text::CHECK,
        automata_text::CHECK,
        conversions::CHECK,
        versions::CHECK,
        collections::CHECK,
        cs::CHECK,
        stored::CHECK,
        seeds::CHECK,
        recognition::C14,
        recognition::C15,
        export::CHECK,
        gorn::CHECK,
    ])
}
