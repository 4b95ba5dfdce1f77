#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
RT = "trellis/src/ramp_table.rs"; GR = "trellis/src/graph.rs"; LB = "trellis/src/lib.rs"
VO = "trellis/src/vec_option.rs"; LX = "dot_parser/src/lexer.rs"

prop("C01", "A ramp table returns exactly the values appended under each key, in order",
 "After any sequence of appends, key closings, whole-entry appends and clears (within 32-bit value counts), the table has one key per closing, numbered from zero, and reading a key yields exactly the values appended since the previous closing, in the order they were appended. Values appended after the last closing belong to no key, closing a key or appending never changes an earlier entry, and clearing yields an empty table.",
 ["inputs", "histories"], "all element types, all value sequences, all interleavings of append / close / bulk append / clear, all keys read back",
 "Only a handful of doc examples with two or three strings exist; they cannot settle every history and every key.",
 [RT], [("offset index into a value vector; every operation keeps index non-decreasing, starting at 0, bounded by the value count", RT + ": RampTable::{new,with_capacity,push_value,finish_key,clear,push_entry_*,entry_values_range,entry_values,len}")],
 ["entry_values / Index / len / num_values / all_values"], [("index", "offsets where each entry starts", RT), ("values", "all values, entry after entry", RT)])

prop("C02", "Iterating a ramp table visits every entry and pair once, in key order",
 "For every well-formed table, iterating its entries yields one slice per key, in key order and each equal to what reading that key returns, from either end. Iterating its (key, value) pairs, by either of the two pair iterators, yields exactly the owned values in order, each with the key it belongs to, skips empty keys, never yields a value that belongs to no key, and never panics.",
 ["inputs"], "all well-formed tables, including empty entries, runs of empty entries and trailing unowned values",
 "The doc examples iterate one table with one empty entry; the pair iterators have no test at all.",
 [RT], [("windowed index slices", RT + ": RampTable::iter"), ("enumerate/flatten over entries", RT + ": iter_pairs"), ("hand-written key tracking iterator", RT + ": iter_pairs_manual")],
 ["iter, iter_pairs, iter_pairs_manual"])

prop("C03", "Mutable access to a ramp table touches only the addressed entry",
 "Mutable access to one entry exposes exactly that entry's values, and writing through it leaves every other entry, every key boundary and every unowned value unchanged. The mutable entry iterator yields one slice per key, in key order, pairwise disjoint and jointly covering exactly the owned values.",
 ["inputs", "histories"], "all well-formed tables, all keys, all values written",
 "One doc example writes one element of a one-key table; frame conditions over all other entries are never checked.",
 [RT], [("range of the entry computed from the index", RT + ": entry_values_mut / IndexMut / all_values_mut"), ("successive splitting of the remaining slice", RT + ": IterMut::next")],
 ["entry_values_mut, iter_mut"])

prop("C04", "The ramp table builder groups pairs by key, stably",
 "A table built from any collection of (key, value) pairs, pushed in any key order, maps every key to exactly the values pushed with it, in push order, and has exactly one key more than the greatest pushed key (none if nothing was pushed). No pushed value is lost or duplicated.",
 ["inputs", "histories"], "all sequences of pairs with 32-bit keys, any order, any number of repeats and gaps",
 "The builder has no test.",
 [RT], [("stable sort by key, then fill gaps with empty keys", RT + ": RampTableBuilder::{push,extend,finish}")], ["RampTableBuilder::finish"])

prop("C05", "Graph construction and edge enumeration are faithful",
 "A graph built by appending targets and closing source vertices has exactly the vertices closed and, per vertex, exactly the targets appended, in order. The flattened edge enumeration and the per-vertex enumeration list exactly the edges of the graph, each once, grouped by ascending source vertex and with the same order of targets as reading that vertex; the well-formedness check accepts exactly the graphs all of whose targets are vertices.",
 ["inputs", "histories"], "all graphs including self loops, parallel edges, isolated vertices and the empty graph",
 "Enumeration is only exercised indirectly, on a few small path graphs.",
 [GR, RT], [("delegation to the ramp table", GR + ": Graph::{push_to,finish_from,edges_from,iter_edges_flattened,iter_from_edges,num_verts,num_edges}"), ("bounds assertion", GR + ": assert_graph_is_well_formed")], ["Graph methods"])

prop("C06", "Transposing a graph reverses every edge and nothing else",
 "For every graph whose edge targets are vertices, the transposed graph has the same number of vertices and, for every pair of vertices, exactly as many edges from the second to the first as the original has from the first to the second. Each vertex's list in the result is in ascending order, and the operation never panics.",
 ["inputs"], "all well-formed graphs with fewer than 2^32-1 vertices and edges",
 "The only test prints the transposition of two graphs and asserts nothing.",
 [GR], [("in-degree counting, prefix sums, placement with per-vertex counters", GR + ": Graph::transpose")], ["Graph::transpose"])

prop("C07", "A topological sort lists every connected vertex once, respecting all edges",
 "Whenever topological sorting succeeds, the sources-to-sinks order contains every vertex that has at least one incident edge exactly once, contains no vertex without edges, and places the source of every edge before its target; the reverse variant returns exactly the opposite order. It never panics on a well-formed graph.",
 ["inputs"], "all well-formed directed graphs, any size, any edge order, parallel edges, disconnected parts",
 "Tests compare the result on seven tiny graphs to one fixed order.",
 ["trellis/src/topo_sort.rs", GR], [("iterative depth-first search with explicit stack, visited and in-progress sets", "trellis/src/topo_sort.rs: topo_sort_reverse"), ("reversal", "trellis/src/topo_sort.rs: topo_sort")], ["topo_sort, topo_sort_reverse"])

prop("C08", "Topological sorting and layering fail exactly on cyclic graphs",
 "Topological sorting and layer assignment report a cycle if and only if the graph contains a directed cycle, including self loops. They always terminate with a result.",
 ["inputs"], "all well-formed directed graphs; cycles anywhere, including ones reachable only from visited regions",
 "Tests cover a self loop, one triangle and one two-way path.",
 ["trellis/src/topo_sort.rs", "trellis/src/layering.rs"], [("in-progress set check before descending", "trellis/src/topo_sort.rs: topo_sort_reverse"), ("error propagation", "trellis/src/layering.rs: create_layer_map")], ["Result returned"])

prop("C09", "Layer assignment is the longest-path layering with a correct layer count",
 "For every acyclic graph, each vertex is assigned the length of the longest edge path leaving it: a vertex without outgoing edges is in layer zero and any other is exactly one above the highest of its targets, so every edge points strictly downwards. The reported number of layers is one more than the greatest layer used, and at least one.",
 ["inputs"], "all acyclic well-formed graphs",
 "The layer test prints maps and asserts nothing.",
 ["trellis/src/layering.rs", "trellis/src/topo_sort.rs"], [("sinks-first order makes targets final before sources", "trellis/src/layering.rs: create_layer_map")], ["LayerMap"])

prop("C10", "Disjoint subgraphs are exactly the connected components",
 "Splitting a graph into disjoint subgraphs puts two vertices that have edges into the same subgraph exactly when they are connected by a path that ignores edge direction. Every vertex with at least one edge occurs in exactly one subgraph exactly once, vertices without edges occur in none, no subgraph is empty, and vertices are listed in ascending order within a subgraph.",
 ["inputs"], "all well-formed graphs, all edge orders and all merge orders of partial groups",
 "Tests run four path graphs and assert nothing about the result; the outcome depends on the order in which partial groups meet.",
 ["trellis/src/disjoint.rs"], [("alias chains between provisional groups, leader resolution, renumbering", "trellis/src/disjoint.rs: find_disjoint_subgraphs")], ["DisjointSubgraphs::subgraphs"])

prop("C11", "Chain search reports exactly the maximal single-thread paths",
 "For every acyclic graph, the chains reported are exactly the maximal edge paths that run through vertices with exactly one incoming and one outgoing edge, each with the vertex where it begins and the vertex where it ends, both of which are not such pass-through vertices. Every chain has at least three vertices, consecutive vertices are joined by an edge, and each is reported once, ordered by beginning vertex and then by that vertex's edge order.",
 ["inputs"], "all acyclic well-formed graphs (and all graphs for termination), any degree combination, parallel edges",
 "Tests run three graphs and assert nothing.",
 ["trellis/src/find_chains.rs"], [("saturating packed in/out degree classes", "trellis/src/find_chains.rs: pack_degrees/unpack_degrees/increment_degree/is_chain"), ("walk along pass-through vertices", "trellis/src/find_chains.rs: find_chains")], ["find_chains"])

prop("C12", "Degree counting adds one per occurrence and saturates, flagging loss",
 "Counting degrees adds to each vertex's counter exactly the number of its occurrences in the list, stopping at the greatest representable count instead of wrapping, and leaves all other counters unchanged. The reported flag is true exactly when some occurrence could not be counted, and counting from scratch equals counting onto zeros.",
 ["inputs"], "all lists, all prior counter contents, including counters at and near the 16-bit limit",
 "One list of seven items with counts at most three is tested; saturation is never reached.",
 [LB], [("overflowing add, keep old value on overflow", LB + ": add_degree, find_degree")], ["add_degree, find_degree"])

prop("C13", "Source, sink and referenced-vertex flags match the edges",
 "A vertex is flagged as a source exactly when no edge points to it, as a sink exactly when no edge leaves it, and as referenced exactly when it occurs in the edge list. The result always has one flag per vertex.",
 ["inputs"], "all well-formed graphs and edge lists",
 "No test covers these functions.",
 [LB], [("flag vector cleared or set per edge target", LB + ": find_sources, find_sinks, find_referenced_edges")], ["returned flag vectors"])

prop("C14", "Depth-first preorder yields each vertex before its descendants, in edge order",
 "From any starting vertex, the depth-first traversal of an acyclic graph yields, for each target of the start in edge order, that target followed immediately by the traversal of that target, then ends; the start itself is not yielded. It never panics on a well-formed graph, and on any graph each item produced is a target of the start or of an earlier item.",
 ["inputs"], "all well-formed graphs, all starting vertices, all prefixes of the traversal",
 "No test covers the traversal.",
 [LB], [("stack of edge cursors", LB + ": traverse_depth_first_preorder")], ["items yielded by the iterator"])

prop("C15", "The priority queue always removes a greatest remaining item",
 "After any sequence of insertions, removals and clears, removing returns an item that is at least as great as every item still held, or nothing exactly when the queue is empty. The items held are always exactly those inserted and not yet removed, and no operation panics.",
 ["inputs", "histories"], "all totally ordered item types and all operation sequences, including duplicates",
 "The queue has no test.",
 ["trellis/src/priority_queue.rs"], [("binary heap with sift up and sift down", "trellis/src/priority_queue.rs: PQ::{insert,remove,check}")], ["PQ::remove"])

prop("C16", "Sparse shortest-path search returns a minimum-weight path when one exists",
 "For every finite graph with non-negative edge weights whose sums fit the weight type, the search returns nothing exactly when the goal is unreachable from the start; otherwise it returns the vertices of a path between the two, listed from the goal back to the start, whose total weight is minimal among all paths. It terminates on graphs with cycles and for any start vertex.",
 ["inputs"], "all finite graphs with non-negative 32-bit weights, all start/goal pairs, cycles, ties, parallel edges",
 "The module's only test is empty.",
 ["trellis/src/ortho/shortest_path.rs"], [("best-first expansion of paths from a heap, predecessor chain", "trellis/src/ortho/shortest_path.rs: find_shortest_path, FindPathState")], ["find_shortest_path"])

prop("C17", "The optional vector behaves like a vector of optional values, element by element",
 "Pushing, popping, reading, replacing, setting and swapping elements, popping the last present value, and length queries give exactly the results and the contents that the same operation gives on a plain vector of optional values, whatever was done before. Out-of-range element access panics instead of reading or writing memory.",
 ["inputs", "histories"], "all element types, all operation histories, all indices, all mixes of present and absent elements across bitmap word boundaries",
 "Doc examples use vectors of at most five elements and one operation each.",
 [VO], [("presence bitmap next to uninitialised-slot storage", VO + ": push*, pop*, get_*, replace*, set*, swap, len")], ["public methods"], [("present", "which slots hold a value", VO), ("vec", "slot storage; absent slots are uninitialised", VO)])

prop("C18", "Bulk operations on the optional vector match plain vector semantics",
 "Collecting, extending, converting from and into plain vectors, compacting, draining any range (whether the drain is consumed fully, partly or not at all), iterating by reference, by value, over present items only and over runs of present items, all produce exactly the elements that a plain vector of optional values would, in the same order. Compacting and draining leave the rest of the contents and their order unchanged.",
 ["inputs", "histories"], "all contents, all ranges and range forms, all amounts of partial consumption",
 "Doc examples compact one vector and walk the runs of another; draining has no test.",
 [VO], [("element moves plus bitmap shifting", VO + ": compact, drain, Drain::{next,drop}, bitvec_delete_range, some_into_vec, from_vec, new_repeat_none, iter*, IterRuns, IntoIter, IntoSomeIter, find_next_run")], ["public methods"])

prop("C19", "The optional vector never loses, duplicates or touches an absent value",
 "Every value put into the vector is given back to the caller or dropped exactly once, never both and never twice, under every sequence of operations including partly consumed or forgotten-by-early-exit iteration and dropping the vector at any point. No operation reads, drops or exposes the storage of an absent element.",
 ["inputs", "histories"], "all element types with ownership, all operation histories, all points at which iterators and vectors are dropped",
 "Tests use integers and characters only, so a leak, double drop or uninitialised read is invisible.",
 [VO], [("unsafe slot reads and writes guarded by the presence bitmap; storage length reset before deallocation", VO + ": replace_some, replace_none, compact, Drain::drop, some_into_vec, Drop, Clone")], ["drop counts of elements"], hook=None)

prop("C20", "Equality, ordering, hashing and cloning of optional vectors are coherent",
 "Two optional vectors are equal exactly when they have the same length and equal elements at every position; the ordering is a total order consistent with equality that compares lengths first and then the first differing element, absent before present. Equal vectors hash equally, and a clone equals its original in length and every element while being independent of it.",
 ["inputs"], "all pairs and triples of vectors, all element types with lawful comparison",
 "No test compares, hashes or clones one.",
 [VO], [("element-wise comparison loops", VO + ": PartialEq, PartialOrd, Ord, Hash, Clone impls")], ["==, cmp, hash, clone"])

prop("C21", "Tokenising follows the longest-match grammar on every input",
 "For every Unicode text, tokenising terminates without panicking, and the tokens produced up to the first error are exactly those of the grammar: punctuation and arrows, identifiers and numbers taken as long as possible, quoted strings with newline, tab and return escapes decoded and any other escaped character kept with its backslash, whitespace skipped. A text is reported erroneous exactly when it has a character that starts no token, a lone dash, an unterminated string or a malformed or out-of-range number.",
 ["inputs"], "all strings of Unicode characters, including empty, multi-byte and truncated ones",
 "Two tests tokenise a few well-formed snippets and one unterminated string.",
 [LX], [("character dispatch and longest-match loops", LX + ": Lexer::{next,parse_ident,parse_quoted_string,parse_number}")], ["token sequence, has_errors"])

prop("C22", "Lexical error reports give the true line and column",
 "Every reported lexical error names the one-based line and column of the first character of the offending token, where a line ends at each newline character and columns count characters, not bytes. There is one report per failed token, in text order.",
 ["inputs"], "all texts and error positions, including multi-byte characters and positions after newlines",
 "Tests print reports but never compare a position.",
 [LX], [("byte offset recorded at token start, mapped by counting characters", LX + ": add_error, map_offset_to_line, write_errors")], ["write_errors output"])

prop("C23", "Box operations satisfy the laws of axis-aligned rectangles",
 "Point containment, overlap, containment of boxes, expansion by a point or box and clipping agree with set semantics of closed axis-aligned rectangles: the expanded box contains the old box and the added point or box and is the smallest such box, the clipped box is exactly the intersection, overlap is symmetric and holds exactly when two boxes share a point, and containment is transitive and equals inclusion of point sets. Only the addressed box changes.",
 ["inputs"], "all boxes and points with ordinary (non-NaN) floating-point coordinates, including infinities, signed zeros and degenerate boxes",
 "No test covers the geometry helpers.",
 ["trellis/src/common/geom.rs", "trellis/src/math.rs", "trellis/src/common/arith.rs"], [("coordinate comparisons and min/max", "trellis/src/common/geom.rs: INSIDE, OVERLAP, CONTAINS, EXPANDBP, EXPANDBB, CLIPBB; math.rs fmin/fmax; arith.rs BETWEEN")], ["returned flags and boxes"])

prop("C24", "Orientation and betweenness predicates are consistent",
 "The orientation of three points is a sign that is reversed when the first and last points are exchanged and equals the sign of the doubled signed area up to the stated tolerance; a point strictly between two others is so regardless of the order of those two, and is never equal to either. The point-in-polygon test accepts exactly the points that have no polygon edge with the counter-clockwise orientation, including for an empty polygon.",
 ["inputs"], "all finite coordinates, all polygons",
 "No test covers the predicates.",
 ["trellis/src/pathplan/visibility.rs", "trellis/src/pathplan/in_poly.rs"], [("cross product with tolerance", "trellis/src/pathplan/visibility.rs: area2, wind, inBetween"), ("edge loop with wrap-around", "trellis/src/pathplan/in_poly.rs: in_poly")], ["wind, area2, inBetween, in_poly"])

prop("C25", "Opening an obstacle set builds consistent rings and a symmetric visibility graph",
 "For every list of non-empty polygons, opening it succeeds, keeps every vertex in order, links each polygon's vertices into one closed ring in both directions, and yields a square visibility matrix that is symmetric. Neighbouring vertices of a polygon carry their distance, and any other pair carries its distance if each lies in the other's cone and no polygon edge blocks it, and zero otherwise.",
 ["inputs"], "all lists of non-empty polygons, including single-vertex and two-vertex ones",
 "No test opens an obstacle set.",
 ["trellis/src/pathplan/cvt.rs", "trellis/src/pathplan/visibility.rs", "trellis/src/pathplan/array2.rs"], [("ring construction", "trellis/src/pathplan/cvt.rs: Pobsopen"), ("pairwise visibility loop", "trellis/src/pathplan/visibility.rs: visibility, compVis, clear")], ["the returned configuration"])

prop("C26", "Point visibility queries agree with the blocking rule",
 "The visibility vector of a point has one entry per obstacle vertex plus two zero entries; a vertex's entry is its distance from the point when the point lies in the vertex's cone and no edge of any polygon other than the containing one blocks the segment, and zero otherwise, and vertices of the containing polygon are zero. Two points see each other directly exactly when no edge of a polygon other than those they belong to blocks the segment between them, and locating a point returns the first polygon that contains it or the none marker.",
 ["inputs"], "all obstacle configurations, all points, all containing-polygon designations",
 "No test covers these queries.",
 ["trellis/src/pathplan/visibility.rs"], [("edge loops skipping the excluded polygons", "trellis/src/pathplan/visibility.rs: polyhit, ptVis, directVis, clear")], ["polyhit, ptVis, directVis"])

prop("C27", "Dense shortest-path search returns a true shortest-path tree branch",
 "For every symmetric matrix of non-negative weights (zero meaning no edge), the search terminates without a panic; if the target is reachable, following predecessors from the target reaches the root, every step is an edge, and the total weight is minimal among all routes; if it is not reachable, following predecessors from the target ends at a none marker without meeting the root. The root's own predecessor is the none marker.",
 ["inputs"], "all matrices of real weights, all roots and targets, reachable (by a route below the sentinel) or not",
 "No test covers the search.",
 ["trellis/src/pathplan/shortestpth.rs"], [("Dijkstra with negated priorities and a sentinel slot", "trellis/src/pathplan/shortestpth.rs: shortestPathGeneric, shortestPath, makePath")], ["predecessor vector"])

prop("C28", "The two-dimensional array addresses distinct cells independently",
 "A new array has default-valued cells for every row and every column including the extra columns; reading a cell returns the value last written to that row and column, and writing a cell changes no other cell.",
 ["inputs", "histories"], "all dimensions whose product fits the address space, all in-range row/column pairs, all write sequences",
 "The array has no test.",
 ["trellis/src/pathplan/array2.rs"], [("row-major index arithmetic", "trellis/src/pathplan/array2.rs: Array2::{new,index,index_mut}, allocArray")], ["Index / IndexMut"])

prop("C29", "The polynomial root solver returns exactly the real roots up to degree three",
 "In exact arithmetic, for coefficients of a linear or quadratic polynomial the solver reports as many roots as there are distinct real roots and each reported value is a root; for a cubic it reports either three roots, each as often as it divides the polynomial, or one, which is then the only real root and simple; for a constant it reports the special count when the constant vanishes and none otherwise, treating leading coefficients within the stated tolerance as zero.",
 ["inputs"], "all real coefficients of degree at most three",
 "The solver has no test.",
 ["trellis/src/pathplan/solvers.rs"], [("degree cascade with tolerance, discriminant, Cardano and trigonometric forms", "trellis/src/pathplan/solvers.rs: solve3, solve2, solve1, cbrt, AEQ0")], ["solve3"])

prop("C30", "A shortest path inside a polygon stays inside and is minimal",
 "For every simple polygon and two points inside it, the polyline returned connects the points, stays inside the polygon and is no longer than any other such polyline.",
 ["inputs"], "all simple polygons and interior point pairs",
 "No test runs it.",
 ["trellis/src/pathplan/shortest.rs"], [("triangulation and funnel", "trellis/src/pathplan/shortest.rs: Pshortestpath")], ["Pshortestpath"])

prop("C31", "A fitted spline starts and ends at the given points and avoids the barriers",
 "For every path of at least two points without immediate repetition and every set of barriers with distinct ends, fitting succeeds and yields a chain of cubic pieces, each starting where the previous one ends, that starts and ends exactly at the path's end points and whose joints are points of the path in order. The chain leaves and arrives along the two end directions, which are normalised in place, and has no corner at a joint: both handles there lie along one direction. No piece crosses a barrier anywhere except within a millionth of the parameter range at its own ends, or within the square root of a thousandth of an end of the barrier; a piece lying along a barrier counts as avoiding it. Only where two neighbouring points of the path admit no such piece is the straight line between them used instead.",
 ["inputs"], "all polylines of two or more points, barriers and end directions; coordinates as exact reals; polynomial coefficients below 1e-7 that the root solver leaves out are left out in deciding a crossing",
 "No test fits a spline; that every piece for every path and barrier set avoids every barrier, and that the recursion always ends in a chain through the path's points, is a statement about the exact roots of all cubics and all subdivisions.",
 ["trellis/src/pathplan/route.rs", "trellis/src/pathplan/solvers.rs", "trellis/src/vec2.rs"], [("subdivision of the path at the point furthest from the fit", "trellis/src/pathplan/route.rs: reallyroutespline"), ("least squares handles, shortened until the piece fits", "trellis/src/pathplan/route.rs: mkspline, splinefits"), ("intersection of a cubic with a barrier by its exact roots", "trellis/src/pathplan/route.rs: splineisinside, splineintersectsline")], ["Proutespline", "reallyroutespline", "splinefits", "splineisinside"])

prop("C32", "An elliptic wedge path goes from the centre along the ellipse and back",
 "For every centre, positive semi-axes and angles angle0 <= angle1 <= angle0 + one turn, the path drawn for the wedge, which replaces whatever the polyline held, is closed: it starts at the centre, runs straight to the point where the ray at angle0 meets the ellipse, along the ellipse to the point where the ray at angle1 meets it, and straight back to the centre. The arc is one or more cubic pieces of equal eccentric angle, each at most a quarter turn, joined end to end at points of the ellipse in the direction of increasing angle; together they cover exactly the turn from angle0 to angle1, nothing for an empty wedge, half the ellipse for half a turn and all of it, once, for a full turn. Both handles of a piece lie on the tangents at its ends, and are as long as makes it bend there like the ellipse.",
 ["inputs"], "all centres, positive semi-axes, and angle pairs up to one turn apart; coordinates as exact reals",
 "One test prints a path. Which turn is taken at wrap-around, half and full turns, and how many pieces are drawn depend on angles that no list of examples covers.",
 ["trellis/src/common/ellipse.rs"], [("eccentric angles of the two directions, brought into one turn", "trellis/src/common/ellipse.rs: initEllipse"), ("subdivision into equal pieces and their handles", "trellis/src/common/ellipse.rs: gen_elliptic_path"), ("path as a polyline of cubic pieces", "trellis/src/common/ellipse.rs: impl PathTarget for Ppolyline_t")], ["ellipticWedge"])

prop("C33", "A proper graph keeps all connections and every edge spans one layer",
 "The proper graph derived from a layered graph keeps all original vertices, replaces each edge by a path through fresh vertices, and has only edges between adjacent layers.",
 ["inputs"], "all acyclic graphs with a valid layer map",
 "No test runs it.",
 ["trellis/src/layering.rs"], [("virtual vertex insertion", "trellis/src/layering.rs: create_proper_graph")], ["create_proper_graph"])

prop("C34", "Elliptic arc pieces stay within the error threshold of the true arc",
 "No point of the path generated for an elliptic arc is further from the arc than the threshold asked for.",
 ["inputs"], "all shapes, angle pairs and thresholds",
 "One test prints a path.",
 ["trellis/src/common/ellipse.rs"], [("error estimate by fitted rational functions", "trellis/src/common/ellipse.rs: estimateError")], ["ellipticWedge"])

prop("C35", "Coordinate conversions round faithfully and distances are Euclidean",
 "Converting an integer point or box to floating point and back returns the same one; converting a floating-point coordinate to an integer gives the nearest integer, halves away from zero, and the nearest bound for values out of range, for points, both corners of a box and whole points of a length in inches alike. Lengths in inches and in points are 72 to 1 and convert back to what they were; so are 180 degrees and pi radians. Lengths and distances are the Euclidean ones, with the squared forms their squares: never negative, zero only between equal points, symmetric, and no detour is shorter. Two values or points are approximately equal exactly when their distance is below the tolerance. Minimum, maximum, average, sign and comparison of two numbers are what they say, and point arithmetic, unit directions and tuple conversions work per coordinate.",
 ["inputs"], "all ordinary (non-NaN) coordinates, lengths, angles and tolerances, as exact reals; all 32-bit integer points and boxes",
 "No test covers these helpers; a swapped coordinate or a half rounded the wrong way shows at few inputs.",
 ["trellis/src/common/geom.rs", "trellis/src/common/arith.rs", "trellis/src/vec2.rs", "trellis/src/math.rs"], [("rounding by adding half and truncating", "trellis/src/common/arith.rs: ROUND; geom.rs: PF2P, BF2B, POINTS"), ("sums of squares and their roots", "trellis/src/common/geom.rs: LEN2, LEN, DIST2, DIST, APPROXEQPT"), ("coordinate-wise operators", "trellis/src/vec2.rs")], ["returned values"])
prop("C36", "The graph builder yields exactly the edges that were added",
 "A graph put together with the builder - edge by edge, along paths, or by chains of from and to, in any order and mixture - has exactly the edges that were added: every vertex lists the targets added for it, in the order in which they were added, repeated as often as they were added, however the hash table orders its entries. The vertices run from 0 to the greatest one mentioned in an edge, with those nothing leads from listing nothing; with no edges the graph is empty. A path adds the edge between each two neighbours on it and nothing else; a path of fewer than two vertices adds nothing. A chain continues from the vertex it last went to. A graph built from a list of paths has the edges of each, one path after the other. The result is well formed: every target is a vertex.",
 ["inputs", "histories"], "all sequences of additions with vertices below u32::MAX and at most u32::MAX edges, for every order of the hash table",
 "The graphs of the tests are built with a few ascending paths; the order of the hash table differs from run to run and gaps, repeats and targets beyond the last source are not tried.",
 ["trellis/src/testing.rs", "trellis/src/graph.rs", "trellis/src/ramp_table.rs"], [("entries of the hash table sorted by source, gaps filled with empty vertices", "trellis/src/testing.rs: GraphBuilder::build"), ("edges between neighbours", "trellis/src/testing.rs: GraphBuilder::path, GraphBuilderFrom::to")], ["the built graph"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
