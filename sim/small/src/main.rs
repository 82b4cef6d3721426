//! Simulations of the three stand-alone crates of the workspace.
mod agendas;
mod multimap;
mod search_sessions;
mod tokens;
mod unique_heap_model;

fn main() {
    simkit::main_with(&[
        search_sessions::CHECK,
        agendas::CHECK,
        unique_heap_model::CHECK,
        multimap::CHECK,
    ])
}
