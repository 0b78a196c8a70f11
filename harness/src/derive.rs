//! Second executable: the derived readers and writers (kept apart because of its compile time).
#![allow(dead_code)]
mod app;
mod col;
mod core;
mod dynread;
mod io;
mod rootr;
#[path = "rootw.rs"]
mod rootw;
mod eng2;

use crate::core::*;

fn engines() -> Vec<Engine> {
    let d = Engine { id: "", run: |_| {}, hang_s: 120, mem_mb: 4000, workers: 8, what: "", assumptions: &[], budget_s: (400, 800) };
    vec![
        Engine {
            id: "C12",
            run: eng2::c12,
            what: "each case runs derived readers (one struct per program of the naming-attribute grammar) over trees holding every column name of the grammar, the trees without or with a mistyped target, and all length profiles; states are (program, tree) pairs, transitions the rows read",
            assumptions: &["a field type outside the instantiated ones behaves like those of its shape"],
            ..d
        },
        Engine {
            id: "C13",
            run: eng2::c13,
            what: "each case writes sequences of one struct shape with the derived writer (with other sequences and columns beside it) and compares columns and rows read back; states are (shape, lengths, companions), transitions the rows",
            assumptions: &["a struct shape outside the instantiated ones behaves like its components"],
            ..d
        },
    ]
}
fn main() {
    app::main(engines())
}
