mod bbox;
mod walk;

use simcore::driver::{self, Prop};

fn main() {
    driver::main(&[Prop {
        id: "C14",
        scenario: walk::c14,
        quick: 800_000,
        thorough: 20_000_000,
        stack: 4 << 20,
        rule: "each run has 1-3 clients share a pool of live iterations (all positions by rows and by columns, rectangles, single rows and columns, coordinate values, directions; 27 position spaces from a single cell to 128-bit coordinates, signed and user-written ones included): each client takes one, consumes from either end, skips, copies, folds, is cut short by a panic in its own consumer, abandons it or puts it back; every item is compared with the member due by plain arithmetic, and single steps next/prev are walked at random; non-trivial: at least one item was judged and at least one fault fired or task switch happened during the run; distinct: by digest of the full event log (schedule, faults, operations and answers)",
        real: "sqrid position, bounded-integer and direction iterators, compiled unmodified from /repo",
        stub: "the consumers; the thread scheduler; caller-written position types",
        assumptions: &["rectangles are given by a top-left and a bottom-right corner in that order"],
    }, Prop {
        id: "C16",
        scenario: bbox::c16,
        quick: 1_200_000,
        thorough: 40_000_000,
        stack: 4 << 20,
        rule: "each run has 1-2 producers put positions on a shared belt and 1-3 clients take them off through streams handed to the library, on one of 27 position spaces; a stream may panic, end early (and talk on if asked again), stall, lie about its length or ask for another box from inside; every box is compared with the smallest and largest coordinates the stream delivered before its first end, and the boxes' corners, streamed again, with everything delivered; non-trivial: at least one item was judged and at least one fault fired or task switch happened during the run; distinct: by digest of the full event log (schedule, faults, operations and answers)",
        real: "sqrid bounding boxes, positions and bounded integers, compiled unmodified from /repo",
        stub: "the streams, their producers and consumers; the thread scheduler; caller-written position types",
        assumptions: &["what a stream says after its first end does not count"],
    }])
}
