mod bools;
mod elems;
mod objs;
mod show;
mod store;
mod table;

use simcore::driver::{self, Prop};

const REAL: &str = "sqrid grid, boolean grid, storage and position code, compiled unmodified from /repo; std collections and formatting machinery";
const STUB: &str = "the caller: element types, streams, text sinks, a caller-written position type; the thread scheduler; std's hash keys (interposed getrandom)";

const STACK: usize = 32 << 20;

fn p(id: &'static str, scenario: fn(), quick: u64, thorough: u64, rule: &'static str, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, scenario, quick, thorough, stack: STACK, rule, real: REAL, stub: STUB, assumptions }
}

macro_rules! rule {
    ($how:literal) => {
        concat!($how, "; non-trivial: at least one answer of the library was judged and at least one fault fired or task switch happened during the run; distinct: by digest of the full event log (schedule, faults, operations and answers)")
    };
}

fn main() {
    let s = 500_000;
    let t = 16_000_000;
    driver::main(&[
        p("C09", table::c09, s, t,
            rule!("each run has 1-3 clients load grids and boolean grids of 23 + 35 shapes from streams that end early, run long, panic at any item, lie about their length or talk on after their end, and from ragged, oversized and partly outside rows, the clients interleaved by the seeded scheduler at every item; after each load every cell is compared with the exact prefix the stream delivered"),
            &["an out-of-range row stops a load of rows at its first out-of-range cell, in row order"]),
        p("C10", table::c10, s, t,
            rule!("each run has 1-3 clients put ledgered, owned elements through random histories of every constructing, loading, replacing, cloning, swapping and consuming operation, handing grids to each other, with panics injected into the elements' clone, default, comparison, formatting and drop code and into the feeding streams; after every operation the set of live elements must be exactly what is reachable, and at the end nothing may be alive"),
            &["at most one injected panic per library call: two at once end the process in any Rust program"]),
        p("C11", table::c11, s, t,
            rule!("each run has 1-3 clients take turns on a shared pool of grids (23 shapes, copyable and owned elements), reading and changing them in every way the interface offers and taking and comparing snapshots, with operations cut short by injected panics; every grid is compared cell by cell with a plain table after each operation"),
            &["clients own a grid while they operate on it, as the borrow checker demands"]),
        p("C12", bools::c12, s, t,
            rule!("as C11 on boolean grids of 35 shapes, most of which leave spare bits; equality, order and hash are also compared with a grid rebuilt cell by cell"),
            &["clients own a grid while they operate on it, as the borrow checker demands"]),
        p("C13", show::c13, s, t,
            rule!("each run has 1-3 clients render grids, boolean grids, positions and directions with 9 format specifications to sinks that fail, write short, are interrupted or panic at any write, while elements panic in their own formatting and other renderings run in between and inside the sink; what was accepted is compared with an independent rendering"),
            &["an element's own formatting may panic but does not return an error on its own", "precision and sign flags are not varied"]),
        p("C15", store::c15, s, t,
            rule!("each run has 1-3 clients apply one shared random history to every back-end at once (grid, boolean grid, b-tree, hash under two draws of keys) over 19 position spaces, one with a hash that always collides; copies are taken, reads are cut short by panics in comparison and hashing, and every answer is compared with a reference table"),
            &["writes are not interrupted: std leaves their effect unspecified"]),
    ])
}
