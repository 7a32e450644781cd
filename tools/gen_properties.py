#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

S = "src/sqrid/"
prop("C01", "Breadth-first path search is sound, shortest and complete",
 "A breadth-first path search returns a position accepted by the caller's goal test together with a walk from the origin to it in which every step is a move the caller's movement function allows, and no accepted position other than the origin can be reached in fewer moves; it reports 'destination unreachable' exactly when no position other than the origin that is accepted can be reached. Moves go to neighbouring cells; this holds for 4- and 8-direction movement, every grid shape, one-way and blocked moves, and every storage flavour (grid, hash, btree, caller-supplied). It keeps holding for searches interleaved with, nested inside, or started after other searches that were suspended, abandoned, or unwound by a panic in the caller's functions.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "For every grid shape, world, origin and goal, every interleaving of several clients' searches at their callbacks, and every history of earlier searches that were dropped, nested or unwound.",
 "The tests search a handful of open or single-wall small square grids, one search at a time, and never from a thread that is in the middle of another search or has just had a callback panic.",
 [S+"bf.rs", S+"mappos.rs", S+"setpos.rs", S+"gridbool.rs", S+"grid.rs"],
 [("breadth-first frontier with visited set", S+"bf.rs BfIterator::next"), ("came-from map and path rebuild", S+"bf.rs search_mapmov; "+S+"mappos.rs camefrom_into_path")],
 ["Sqrid::bfs_path, bfs_path_grid, bfs_path_hash, bfs_path_btree", "bf::search_path, bf::search_mapmov"])
prop("C02", "A* path search is sound, shortest and complete",
 "An A* path search from an origin to a destination returns a walk ending at the destination in which every step is a move the caller's movement function allows, with the minimum possible number of moves, and reports 'destination unreachable' exactly when no such walk exists. Moves go to neighbouring cells; this holds for 4- and 8-direction movement, every grid shape, obstacles, one-way moves and every storage flavour. It keeps holding for searches interleaved with, nested inside, or started after other searches that were suspended, abandoned, or unwound by a panic in the caller's functions.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "For every grid shape, neighbour-move world, origin and destination, every interleaving of several clients' searches at their callbacks, and every history of earlier searches.",
 "The tests use a few small worlds, almost all 4-direction, where the first path found happens to be the shortest; none interleaves, nests or unwinds searches.",
 [S+"astar.rs", S+"mappos.rs", S+"postrait.rs"],
 [("priority queue by cost plus estimate, cost map", S+"astar.rs AstarIterator::next"), ("distance estimate", S+"postrait.rs manhattan"), ("path rebuild", S+"mappos.rs camefrom_into_path")],
 ["Sqrid::astar_path, astar_path_grid, astar_path_hash, astar_path_btree", "astar::search_path, astar::search_mapmov"])
prop("C03", "Uniform-cost search returns a minimum-total-cost path",
 "A uniform-cost search returns a walk from the origin to the destination in which every step is a move the caller's movement function allows and the sum of the step costs the caller declared is the minimum over all such walks; it reports 'destination unreachable' exactly when no such walk exists. Moves go to neighbouring cells and the minimum total fits the cost type; this includes zero-cost and very large step costs, one-way moves, 4- and 8-direction movement, every grid shape and every storage flavour. It keeps holding for searches interleaved with, nested inside, or started after other searches that were suspended, abandoned, or unwound by a panic in the caller's functions.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "For every grid shape, cost assignment (zero to huge), origin and destination, every interleaving of several clients' searches at their callbacks, and every history of earlier searches.",
 "The tests use unit-like costs on tiny grids in which a position is never reached first by a dearer route; none interleaves or unwinds searches.",
 [S+"ucs.rs", S+"mappos.rs"],
 [("priority queue by accumulated cost, cost map", S+"ucs.rs UcsIterator::next"), ("path rebuild", S+"mappos.rs camefrom_into_path")],
 ["Sqrid::ucs_path, ucs_path_grid, ucs_path_hash, ucs_path_btree", "ucs::search_path, ucs::search_mapmov"])
prop("C04", "Searches are repeatable and storage flavours agree",
 "Running the same search or traversal again with the same caller functions gives exactly the same answer (same path, same traversal order), whatever hash keys the process or thread drew, whichever thread runs it, and whatever else runs in between. Different storage flavours (grid, hash, btree, caller-supplied) give the same verdict, and paths of equal length (BFS, A*) or equal total cost (uniform-cost).",
 ["schedules", "configurations", "histories"],
 "For every draw of the process's hash randomisation, every thread and schedule, every history of other searches in between, and every storage flavour.",
 "A test process draws one set of hash keys and runs each search once; no test repeats a search under other keys, on another thread or amid other searches.",
 [S+"bf.rs", S+"astar.rs", S+"ucs.rs", S+"mappos.rs", S+"setpos.rs"],
 [("hash containers used only for lookup, never iterated", S+"bf.rs, "+S+"astar.rs, "+S+"ucs.rs"), ("frontier order decided by position and direction order", S+"bf.rs Vec frontier; "+S+"astar.rs BinaryHeap")],
 ["all *_path_* functions", "BfIterator"])
prop("C05", "Breadth-first traversal delivers each reachable cell once, by distance",
 "A breadth-first traversal delivers, layer after layer, every position reachable from the origin except the origin itself exactly once, the n-th layer holding exactly the positions whose shortest distance is n, each with a direction that leads back to a position of the previous layer from which the caller allowed the move. When the caller's answers change while the traversal is suspended, it still delivers no position twice, never the origin, only positions the caller offered, and every position the caller offered unless it was the origin or a panic in the caller's function cut that step short. Two traversals interleaved step by step do not influence each other.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "For every world, every suspension point at which the world changes, and every interleaving of several live traversals.",
 "The tests traverse fixed, open worlds to the end in one go; the world never changes mid-way, the movement function never answers with the origin, and no two traversals are live together.",
 [S+"bf.rs", S+"setpos.rs", S+"gridbool.rs"],
 [("visited set marked when a position is queued", S+"bf.rs BfIterator::next"), ("origin expanded before the first layer", S+"bf.rs BfIterator::new")],
 ["Sqrid::bf_iter, bf_iter_grid, bf_iter_hash, bf_iter_btree"])
prop("C06", "A copy of an in-progress search resumes exactly",
 "A copy taken at any point of an in-progress traversal or search iteration continues, on any thread, with exactly the items the original delivers from that point when the caller's functions answer alike, in the same order, however the two (and their parents, siblings or other searches) are interleaved and whichever of them is dropped or unwound first. Advancing one never changes what the other delivers.",
 ["schedules", "crash_points", "histories"],
 "For every point at which the iterator is copied, every interleaving of advancing the copies, and every point at which one of them is dropped or its callback panics.",
 "No test clones an iterator in mid-search, so neither the snapshot point nor the interleaving is exercised at all.",
 [S+"bf.rs", S+"astar.rs", S+"ucs.rs", S+"gridbool.rs", S+"grid.rs"],
 [("derived Clone over owned visited set, frontier and cost map", S+"bf.rs BfIterator; "+S+"astar.rs AstarIterator; "+S+"ucs.rs UcsIterator")],
 ["BfIterator::clone", "AstarIterator::clone", "UcsIterator::clone"])
prop("C07", "Searches stop and invent nothing, whatever the callbacks do",
 "For a fixed finite grid every search and traversal returns after a bounded number of callback calls even if the caller's functions answer inconsistently, change their answers, or offer non-neighbouring cells, and it never panics on its own account. Every position it calls the caller about is the origin or one the caller had offered; a returned path starts at the origin, stays in the grid, ends at the reported destination, and moves only through positions the caller offered; the only errors are the documented ones. A panic raised inside a caller's function reaches the caller of the search with its payload intact.",
 ["fault_sequences", "inputs", "histories"],
 "For every sequence of adversarial, inconsistent or panicking answers from the caller's functions, including step costs up to the largest representable value.",
 "The tests' callbacks are all pure, consistent, neighbour-only and never panic.",
 [S+"bf.rs", S+"astar.rs", S+"ucs.rs", S+"mappos.rs"],
 [("visited set and cost map bound the work", S+"bf.rs, "+S+"astar.rs, "+S+"ucs.rs"), ("iteration cap in path rebuild", S+"mappos.rs camefrom_into_path")],
 ["all search functions and iterators"])
prop("C08", "Path rebuild from a damaged came-from map fails cleanly",
 "Rebuilding a path from a came-from map of any content terminates and returns, exactly when following the map's directions from the destination reaches the origin, the reversed walk. Otherwise it reports 'destination unreachable' if the destination has no entry, 'invalid movement' if the walk meets a cell without an entry or leaves the grid, and 'loop' if it never ends. It holds for every grid shape, including ones much taller than wide, and for maps that are incomplete, stale, corrupted or forgetful.",
 ["fault_sequences", "inputs", "crash_points"],
 "For every came-from map: complete, truncated at any point of a search, with any entries flipped, dropped or redirected, in any storage flavour.",
 "The tests rebuild two or three intact hand-made maps on a square grid; tall grids, partial maps and random corruption are never tried.",
 [S+"mappos.rs"],
 [("walk with iteration cap", S+"mappos.rs camefrom_into_path")],
 ["camefrom_into_path", "Sqrid::camefrom_into_path"])
prop("C09", "Bulk loading from a failing stream never misplaces data",
 "Loading a grid or boolean grid from a stream of values puts the n-th value in the n-th cell in row order, extending from a stream of (position, value) pairs assigns each named cell its last delivered value, and loading from rows puts each value in the cell its row and column name. If the stream ends early, is too long, or panics part-way, or a row or column lies outside the grid, the failure is reported to the caller as documented; an existing grid then holds exactly the effect of the items delivered before the failure and every untouched cell keeps its value. A stream's size hints, or what it would yield after its end, do not matter.",
 ["fault_sequences", "crash_points", "inputs"],
 "For every stream and every point at which it stops, panics, lies about its length or names a cell outside the grid, for every grid shape.",
 "The tests load from complete, well-behaved vectors and one slightly short or long one; no stream fails in the middle and no pre-existing content is checked after a failure.",
 [S+"grid.rs", S+"gridbool.rs"],
 [("element-wise fill with explicit length checks", S+"grid.rs FromIterator, Extend, TryFrom<Vec<Vec>>, extend_from_vecvec"), ("boolean fill", S+"gridbool.rs FromIterator, set_iter_t, set_iter_f")],
 ["Grid::from_iter, extend, try_from, extend_from_vecvec", "Gridbool::from_iter, set_iter_t, set_iter_f"])
prop("C10", "Grids drop every element exactly once, even when unwinding",
 "Every element value handed to or created for a grid is dropped exactly once, no earlier than it leaves the grid, and none is lost or duplicated, across construction, collection, loading, replacing, cloning, swapping and consuming operations. This includes operations cut short by a panic in the stream feeding the grid or in the element's own code (its drop code: in operations that hand back no values), and consuming iterations abandoned part-way.",
 ["fault_sequences", "crash_points", "histories"],
 "For every history of grid operations on owned elements and every point at which element code or a stream panics or a consuming iteration is dropped.",
 "The tests only use Copy elements, so ownership is never observable, and nothing ever panics mid-operation.",
 [S+"grid.rs"],
 [("plain array storage moved and dropped by the compiler; swap-based flips and rotations", S+"grid.rs")],
 ["Grid with non-Copy elements"])
prop("C11", "A grid behaves as a plain table of cells over any history",
 "Over any sequence of reads, writes, line access, iteration, flips, rotations, negation, extension and snapshots by several clients, a grid behaves as a plain two-dimensional table: each operation affects exactly the cells it names, flips mirror, rotations turn by a quarter in the named direction, lines and iterations show the cells in row order, and equal content means equal grids. A copy taken earlier is never affected by later operations, and an operation cut short by a panicking element or stream leaves every cell it did not reach unchanged.",
 ["histories", "schedules", "fault_sequences", "crash_points"],
 "For every grid shape, every history of operations, every interleaving of clients working on shared and snapshotted grids, and every aborted operation in it.",
 "The tests perform one or two operations on one freshly built grid of one or two shapes.",
 [S+"grid.rs", S+"postrait.rs"],
 [("row-major array indexed by position", S+"grid.rs get, line, flip_h, rotate_cw"), ("position to index", S+"postrait.rs to_usize, flip_h, rotate_cw")],
 ["Grid public methods, Index, IntoIterator, PartialEq"])
prop("C12", "A boolean grid behaves as a set of cells over any history",
 "Over any sequence of sets, clears, bulk updates, flips, rotations, iterations and snapshots by several clients, a boolean grid behaves as a plain table of booleans: each operation affects exactly the cells it names, flips mirror, rotations turn by a quarter, and the true-cells, false-cells and all-cells iterations agree with single reads, in row order. Two boolean grids with the same content are equal and hash alike however each was built. A copy is never affected by later operations, and a bulk update cut short leaves the remaining cells unchanged.",
 ["histories", "schedules", "fault_sequences"],
 "For every grid shape (including bit counts that do not fill a machine word), every history of operations and every interleaving of clients.",
 "The tests touch a few cells of a few shapes once; whole-grid constants are never compared with grids built cell by cell on shapes that leave spare bits, and rotation is tried on one odd-sided grid.",
 [S+"gridbool.rs", S+"postrait.rs"],
 [("bit packing", S+"gridbool.rs byte_bit, set_t, set_f"), ("all-true constant", S+"gridbool.rs repeat"), ("rotation by rings", S+"gridbool.rs rotate_cw")],
 ["Gridbool public methods, Index, PartialEq, Hash"])
prop("C13", "Rendering reports sink failures and writes a true prefix",
 "Rendering a grid, boolean grid, position or direction to a text sink that fails at any point, or with an element whose own formatting panics, passes the failure on to the caller and attempts no further write after it, and what the sink accepted is a prefix of the full rendering. A sink that accepts everything receives the column labels, one labelled line per row with every cell's own rendering in order, and the column labels again, with the caller's width, fill and alignment applied to each cell; rendering is unaffected by interleaved rendering of other grids.",
 ["fault_sequences", "crash_points", "schedules"],
 "For every write at which the sink fails or an element's own formatting panics, every grid shape and format specification, and every interleaving with other renderings.",
 "The tests render into strings, which never fail, for two grid shapes with fewer than three-digit labels.",
 [S+"grid.rs", S+"gridbool.rs", S+"pos.rs", S+"dir.rs"],
 [("shared rendering helper propagating errors", S+"grid.rs display_fmt_helper")],
 ["Display for Grid, Gridbool, Pos, Dir", "display_fmt_helper"])
prop("C14", "Position and coordinate iteration visits exactly the range, once",
 "An iteration over all positions (by rows or by columns), over a rectangle, over one row or column, over a coordinate's values or over the directions yields exactly the members of its range, each once, in its documented order, however consumption from its two ends is interleaved between consumers, suspended and resumed, or continued from a copy, and keeps answering 'finished' once exhausted. Stepping single positions with next and previous follows the same order in either direction. This holds for every grid shape and for ranges touching any edge of the grid.",
 ["schedules", "histories", "inputs"],
 "For every grid shape and range, every interleaving of front and back consumption by several consumers, every copy point and every abandonment.",
 "The tests consume iterators from one end to completion for one or two shapes, and check a rectangle on one interior range.",
 [S+"postrait.rs", S+"boundedint.rs", S+"dir.rs"],
 [("paired cursors", S+"postrait.rs PosTIter; "+S+"boundedint.rs BoundedIntIterator"), ("rectangle cursor", S+"postrait.rs PosTIterRange")],
 ["PosT::iter, iter_orientation, iter_range, iter_in_x, iter_in_y, iter_x, iter_y, next, prev, next_y, prev_y", "Dir::iter"])
prop("C15", "Storage back-ends all behave as one map and one set",
 "Every built-in map back-end answers a read with the last value written for that position, or the initial value if none was, and every built-in set back-end answers membership by the last insertion or removal of that position, over any history of operations interleaved between clients. Back-ends fed the same history agree with each other, whatever hash keys were drawn, even when all positions collide in the hash table, and a back-end stays usable and truthful after a panic in the position's own comparison or hashing code interrupted a read.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "For every history of operations, interleaving of clients, draw of hash keys, quality of the position's hash, and interrupted read.",
 "The tests never exercise the storage traits directly: searches only ever write each cell once or twice, with one set of hash keys and a good hash.",
 [S+"mappos.rs", S+"setpos.rs", S+"grid.rs", S+"gridbool.rs"],
 [("map trait implementations", S+"mappos.rs MapPos"), ("set trait implementations", S+"setpos.rs SetPos")],
 ["MapPos::new/get/set", "SetPos::contains/insert/remove/set"])
# --- pure functions: not applicable to this family --------------------------
NT = "The tests sample a few values; a full answer needs every value of the (finite) input space."
prop("N01", "Direction algebra and parsing",
 "Flipping a direction twice, or rotating it through a full turn, gives it back; negation is flipping; addition of directions is rotation; every name (cardinal, UTF-8, ASCII) parses back to its direction, anything else is rejected, and directions round-trip through unit vectors.",
 ["inputs"], "For every direction, pair of directions and input string.", NT, [S+"dir.rs"], [("tables", S+"dir.rs")], ["Dir"])
prop("N02", "Positions can only be built inside their grid",
 "Building a position from coordinates, a tuple, an index or another position type succeeds exactly when the coordinates lie inside the grid, and then reads back the same coordinates and index; otherwise it reports 'out of bounds'.",
 ["inputs"], "For every grid shape and coordinate pair.", NT, [S+"pos.rs", S+"postrait.rs"], [("checked constructors", S+"pos.rs, "+S+"postrait.rs new")], ["Pos::new, TryFrom"])
prop("N03", "Bounded integers stay in bounds",
 "Creating, converting, adding and subtracting bounded integers yields exactly the arithmetic result when it lies inside the bounds and reports failure otherwise, for every bound pair and every source integer type.",
 ["inputs"], "For every type, bound pair and value.", NT, [S+"boundedint.rs"], [("checked arithmetic", S+"boundedint.rs")], ["BoundedInt"])
prop("N04", "Position geometry",
 "Manhattan distance, inside-rectangle, corner and side tests, mirroring, quarter turns and bounding boxes of positions agree with their geometric definitions.",
 ["inputs"], "For every grid shape and set of positions.", NT, [S+"postrait.rs"], [("PosT provided methods", S+"postrait.rs")], ["PosT::manhattan, inside, is_corner, is_side, flip_h, rotate_cw, tlbr_of"])
prop("N05", "Mismatched grid sizes are rejected at compile time",
 "A grid, boolean grid or base type whose declared size does not match its position type's dimensions does not compile.",
 ["programs"], "For every program instantiating the types with wrong constants.", "Runtime tests cannot observe a program that must not compile.", [S+"grid.rs", S+"gridbool.rs"], [("constant assertions", S+"grid.rs _ASSERTS")], ["rustc"])
prop("N06", "Moving a position by a direction",
 "Adding a direction to a position gives the neighbouring position in that direction, or an error exactly when it would leave the grid; the direction from one position to another points towards it.",
 ["inputs"], "For every grid shape, position and direction.", NT, [S+"posdir.rs", S+"dir.rs"], [("checked increments", S+"dir.rs Add<Dir> for tuples")], ["Pos + Dir", "direction_to"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
