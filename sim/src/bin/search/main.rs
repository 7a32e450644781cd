mod iters;
mod ops;
mod order;
mod spaces;
mod vast;
mod world;

use simcore::driver::{self, Prop};

const REAL: &str = "sqrid search, container, position and direction code, compiled unmodified from /repo; std collections";
const STUB: &str = "the caller: movement, cost and goal functions, caller-written position type and stores; the thread scheduler; std's hash keys (interposed getrandom)";

fn c01() {
    ops::path_scenario(0)
}
fn c02() {
    ops::path_scenario(1)
}
fn c03() {
    ops::path_scenario(2)
}

const STACK: usize = 24 << 20;

fn p(id: &'static str, scenario: fn(), quick: u64, thorough: u64, rule: &'static str, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, scenario, quick, thorough, stack: STACK, rule, real: REAL, stub: STUB, assumptions }
}

macro_rules! rule {
    ($how:literal) => {
        concat!($how, "; non-trivial: at least one answer of the library was judged and at least one fault fired or task switch happened during the run; distinct: by digest of the full event log (schedule, faults, operations and answers)")
    };
}

const NEIGHBOUR: &str = "moves go to the cell next to the current one (or stay), as the API asks";

fn main() {
    let s = 500_000;
    let t = 12_000_000;
    driver::main(&[
        p("C01", c01, s, t,
            rule!("each run draws 1-4 clients, each with its own list of breadth-first searches over random worlds (open, mazes, serpentines, one-way, torn; 49 grid shapes and windows of integer-tuple and user-written position types, 9 storage flavours), interleaved by the seeded scheduler at every callback; searches are suspended, nested in each other's callbacks, abandoned and unwound by injected panics; every answer is judged against an independent breadth-first reference over the same world"),
            &[NEIGHBOUR, "the caller's functions answer consistently within one search (C07 drops this)"]),
        p("C02", c02, s, t,
            rule!("as C01 with A* searches towards one destination; the reference is an independent breadth-first search"),
            &[NEIGHBOUR, "the caller's functions answer consistently within one search (C07 drops this)"]),
        p("C03", c03, s, t,
            rule!("as C01 with uniform-cost searches and step costs that are uniform, random, zero, skewed, per direction, or huge; the reference is an independent Bellman-Ford style relaxation in 128-bit arithmetic"),
            &[NEIGHBOUR, "the caller's functions answer consistently within one search (C07 drops this)", "the optimal total is below usize::MAX"]),
        p("C04", iters::c04, s, t,
            rule!("each run draws one world and has 1-3 clients ask the three algorithms in every storage flavour, and twice over, while other searches run in between and the hash keys are redrawn; all answers about the same question are compared with each other and with the first"),
            &[NEIGHBOUR]),
        p("C05", iters::c05, s, t,
            rule!("each run draws worlds and has 1-3 clients pull breadth-first iterations layer by layer, with suspended, interleaved, abandoned and unwound iterations around; every layer is judged against the exact set of cells at that distance"),
            &[NEIGHBOUR, "the caller's functions answer consistently within one iteration"]),
        p("C06", iters::c06, s, t,
            rule!("each run draws 1-2 iterations of any algorithm; 1-3 clients take turns to advance, copy (at any point), drop and unwind the shared family of copies; every item is compared with an undisturbed run of the same iteration"),
            &["the caller's functions answer as a fixed function of their arguments"]),
        p("C07", iters::c07, s, t,
            rule!("each run draws searches and iterations whose caller answers honestly, inconsistently, with any cell at all, with the wrong neighbour, or across the edges, with costs up to usize::MAX and panics at any call; judged on boundedness, provenance of every cell, form of the result and the panic's payload"),
            &["the bound on callback calls is generous (each cell re-expanded at most once per lower cost)"]),
        p("C08", iters::c08, s, t,
            rule!("each run draws came-from maps: search trees, serpentines, random directions and maps recorded through a store that loses writes, then truncated and corrupted entry by entry, with origin and destination also in opposite corners of integer-tuple spaces of up to 2^256 cells, and computed maps with walks and circles of up to 4 million steps; the rebuilt path or error is compared with a reference walk over the same entries"),
            &["the map answers alike while one path is rebuilt from it"]),
        p("C17", order::c17, s, t,
            rule!("each run draws 1-3 A* and uniform-cost iterations over random worlds and has 1-3 clients take turns to pull items from whichever they find, on whichever thread, to change the world under suspended ones, to abandon them and to continue them after an injected panic; every item is judged on arrival, and a finished iteration against an independent relaxation over the world, or over the moves as they were answered if the world changed"),
            &[NEIGHBOUR, "totals are below usize::MAX"]),
    ])
}
