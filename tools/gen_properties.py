#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A boolean operation returns the right point set",
 "For every pair of closed paths (any mix of lines, quadratic and cubic curves, self-intersecting, overlapping or degenerate), every fill rule and every operation, a point farther from all input curves than a small constant multiple of the accuracy eps lies inside the output paths if and only if the operation applied to the fill-rule membership of the point in the two inputs says so. This holds both for the automatically chosen accuracy and for one the caller gives.",
 ["inputs"], "All pairs of finite closed Bezier paths x 2 fill rules x 4 operations x accuracies eps.",
 "The existing tests compare snapshots and renderings of a fixed list of drawings; the guarantee is about every point of every drawing, and the hard cases (near-coincident curves, touching, many curves through a point) need specific geometry.",
 ["src/lib.rs", "src/topology.rs", "src/sweep/sweep_line.rs", "src/curve/mod.rs", "src/position.rs"],
 [("binary_op / binary_op_with_eps", "src/lib.rs"), ("sweep line with intersection and re-ordering events", "src/sweep/sweep_line.rs"), ("winding numbers and contour tracing", "src/topology.rs"), ("positioning of the output curves", "src/position.rs")],
 ["Result of binary_op and binary_op_with_eps: nonzero winding number of the returned paths at sample points"])

prop("C02", "Every finite closed input is processed without panic in bounded work",
 "For every pair of finite closed paths and every accuracy from about a billionth to a percent of the largest coordinate, a boolean operation returns a result: it does not panic, does not overflow the stack and does not run forever. The work and the size of the output are bounded in terms of the number of input pieces and of places where they come close to each other.",
 ["inputs"], "All pairs of finite closed Bezier paths, including empty, one-point, zero-area and coincident ones, at accuracies between 1e-9 and 1e-2 of the largest coordinate (which covers the automatic accuracy for coordinates up to about 1000).",
 "Termination and absence of panics are claims about all inputs; tests run a fixed list that is known to terminate.",
 ["src/sweep/sweep_line.rs", "src/topology.rs", "src/curve/mod.rs", "src/position.rs"],
 [("events are only ever inserted below the current sweep line", "src/sweep/sweep_line.rs"), ("recursion in curve comparison stops at a minimal height", "src/curve/mod.rs"), ("internal assertions", "src")],
 ["Return, panic, number of allocations and live bytes, and CPU time of each call"])

prop("C03", "Invalid input is refused with the right error, valid input never is",
 "A boolean operation whose input contains a NaN coordinate anywhere (end points or control points, either path) reports the NaN error, one with an infinite coordinate and no NaN reports the infinity error (one that has both reports either), and otherwise one with a subpath that does not return to its start reports the non-closed error naming that subpath's first and last point. Any other input, including empty paths, bare moves, and subpaths closed by coordinates or by an explicit close command, is accepted and gives the same result as its explicitly closed equivalent.",
 ["inputs"], "All paths obtained by corrupting one or more coordinates or closings of a valid path, at every position.",
 "Tests never feed NaN or infinities and hardly any non-closed path; the property quantifies over the position of the corrupted coordinate.",
 ["src/lib.rs", "src/segments.rs", "src/topology.rs"],
 [("finiteness check", "src/lib.rs"), ("closedness check of subpaths", "src/segments.rs add_bez_path / add_path_impl")],
 ["Result of binary_op, binary_op_with_eps, Topology constructors and Segments::add_bez_path"])

prop("C04", "Output contours are closed, finite, consistently oriented region boundaries",
 "Every returned contour is one closed, non-empty path with finite coordinates. Away from the input curves the contours wind around each point exactly zero times or exactly once in one fixed direction, so that both fill rules read the output as the same region; outer contours and holes have opposite orientations.",
 ["inputs"], "All results of boolean operations.",
 "Snapshots of a few contours say nothing about orientation and closedness of the output for other inputs.",
 ["src/topology.rs"],
 [("contour walking keeps the inside on one side", "src/topology.rs Topology::contours")],
 ["Contours returned by binary_op and Topology::contours: path elements, winding numbers, signed areas"])

prop("C05", "Output curves stay within eps of the input curves",
 "Every point of every returned contour lies within a small constant multiple of eps of some input curve, and the contours only use input curves that bound the result, so nothing is invented away from the inputs. The output's end points and control polygons stay within the inputs' extent up to the same tolerance, and the extent an arrangement reports (Topology::bounding_box) is that of the input curves.",
 ["inputs"], "All results of boolean operations, sampled along every output curve.",
 "The tests do not measure distances; a curve that is drawn badly between two right end points goes unnoticed unless that very drawing is in the list.",
 ["src/position.rs", "src/topology.rs", "src/curve/mod.rs"],
 [("bound_cubic / ordered positioning between neighbours", "src/position.rs"), ("merging of split input curves", "src/topology.rs can_merge")],
 ["Distance from points of output contours to the input curves", "Topology::bounding_box"])

prop("C06", "Winding numbers of the computed arrangement are the true ones",
 "For every piece of every input curve in the computed arrangement, the winding numbers reported for its two sides equal the true winding numbers of the inputs at nearby points that are clearly away from all curves, and the two sides' numbers differ by the piece's own contribution. Around every vertex the numbers agree between neighbouring pieces and each piece's two ends report the same pair of sides.",
 ["inputs"], "All arrangements of closed paths with any number of tagged inputs.",
 "Tests check winding numbers on three hand-made squares and diamonds.",
 ["src/topology.rs"],
 [("winding numbers accumulate along the sweep line", "src/topology.rs process_sweep_line_range / update_windings"), ("coincident pieces are merged and their contributions added", "src/topology.rs merge_coincident")],
 ["Topology::winding_clockwise, winding_counter_clockwise, point, segment_indices, compute_positions"],
 [("winding", "winding numbers on both sides of each output segment", "src/topology.rs HalfSegmentWindingNumbers"), ("point_neighbors", "cyclic order of the segments at each vertex", "src/topology.rs")])

prop("C07", "Operations on any number of paths follow the caller's inside predicate",
 "For any number of input paths with caller-defined tags and a caller-defined winding number, the contours extracted for an arbitrary predicate on winding numbers bound exactly the points whose true winding numbers satisfy the predicate, up to eps. The boolean operations, the polyline constructor and the single-path constructor are special cases and agree with it.",
 ["inputs"], "All sets of tagged closed paths x all predicates that are false at zero winding.",
 "The n-ary API has no test beyond construction; predicates and winding types are supplied by users.",
 ["src/topology.rs"],
 [("WindingNumber trait, Topology::from_paths", "src/topology.rs"), ("Topology::contours(inside)", "src/topology.rs")],
 ["Topology::from_paths / from_path / from_polylines_binary / from_paths_binary and contours"])

prop("C08", "The curves drawn for an arrangement join at its vertices, in order",
 "The curve drawn for each piece of the arrangement starts and ends exactly at the piece's vertices, is finite, never runs up, stays within a small multiple of eps of the input curve it comes from (except over a height of at most a few eps, where it may follow another curve) and, where it is claimed to be an unperturbed copy, coincides with it. Curves that are drawn side by side at the same height are horizontally ordered like the sweep line, up to a small multiple of eps. Curves that are next to each other and not almost horizontal there are exactly in order, except that rare inputs may put two of them out of order by less than the tolerance, and that two straight pieces are ordered up to the tolerance.",
 ["inputs"], "All arrangements of closed paths.",
 "Drawn curves are covered by a handful of renderings only.",
 ["src/position.rs", "src/topology.rs"],
 [("ordered_curves / bound_cubic", "src/position.rs"), ("scan-line order", "src/topology.rs ScanLineOrder")],
 ["Topology::compute_positions against Topology::point and the input curves"])

prop("C09", "The sweep's events trace every input piece exactly once from top to bottom",
 "The events emitted while sweeping visit heights in non-decreasing order and, for each input piece, form one unbroken chain: it appears at its top end, every later event enters where the previous one left off in the order of the sweep line, and it disappears at its bottom end; a horizontal piece appears at its own height only and spans its own extent. Every event lies within a small multiple of eps of the piece it belongs to (or, over a height of at most a few eps, of another piece that it follows), and the first and last events of a piece are at its end points, up to rounding. All interfaces to the sweep - callback, batches of events, and position by position - show the same things.",
 ["inputs"], "All collections of segments (open or closed, straight or curved).",
 "The tests assert a few event coordinates of tiny inputs; the chain property is about the whole history of every run.",
 ["src/sweep/sweep_line.rs", "src/sweep/output_event.rs", "src/sweep/range.rs", "src/sweep/mod.rs"],
 [("output events computed from old and new sweep line", "src/sweep/sweep_line.rs"), ("sweep callback API", "src/sweep/mod.rs")],
 ["Callback of sweep::sweep; Sweeper::next_line / SweepLine::next_range / SweepLineRange::events"],
 [("sweep line", "ordered active segments", "src/sweep/sweep_line.rs")])

prop("C10", "The sweep line holds exactly the active pieces in a valid left-to-right order",
 "After each step the sweep line contains exactly the non-horizontal pieces whose vertical extent spans the region just below that height, each once. Whenever one piece precedes another on the line, it is not farther to the right than the other by more than a small multiple of eps anywhere before the next step (except over a height of at most a few eps), so no crossing is missed. Between two steps the order does not change, and at a step it changes only inside the reported changed intervals.",
 ["inputs", "histories"], "All collections of segments and all their sweep-line steps.",
 "Only a debug-only self check looks at this, on the inputs of the unit tests.",
 ["src/sweep/sweep_line.rs", "src/treevec.rs"],
 [("handle_enter / handle_exit / handle_intersection", "src/sweep/sweep_line.rs"), ("intersection scanning", "src/sweep/sweep_line.rs"), ("changed intervals", "src/sweep/sweep_line.rs")],
 ["SweepLine::line_segment, y, cur_interval and OutputEvent::sweep_idx / old_sweep_idx"],
 [("segs", "ordered active segments", "src/sweep/sweep_line.rs")])

prop("C11", "Comparing two curves tells the truth about their left-to-right order",
 "For any two vertically monotone curves with overlapping heights, the comparison partitions the common heights into consecutive intervals labelled left, right or close: up to a vertical imprecision of about the tolerance (which matters for almost horizontal parts, where distances may also be measured diagonally), where it says left (right) the first curve really is left (right) of the second by more than tolerance minus accuracy, and where the curves are farther apart than tolerance plus accuracy it does not say close or the opposite. A comparison widened vertically by a slop is strict exactly where the original one is, everywhere within the slop; the flipped one is the mirror image; and the answers to point queries and the next-crossing query agree with the partition.",
 ["inputs"], "All pairs of y-monotone cubics (including lines, near-horizontal and near-coincident curves) x tolerances x accuracies x heights.",
 "The fuzz-style unit tests check a few dozen random pairs of one shape class and none of the tolerance contract.",
 ["src/curve/mod.rs", "src/curve/transverse.rs", "src/order.rs"],
 [("recursive parabola estimates", "src/curve/mod.rs intersect_cubics"), ("y slop", "src/curve/mod.rs CurveOrder::with_y_slop"), ("next touch", "src/curve/mod.rs next_touch_after")],
 ["CurveOrder::iter, order_at, entry_at, order_after, next_touch_after, with_y_slop, flip"])

prop("C12", "Cached comparisons are stable, antisymmetric and independent of query order",
 "Whatever sequence of comparisons is made between segments of an arena, asking again gives the same answer, asking for the swapped pair gives the mirrored answer, and both equal what a direct comparison of the two curves gives in the order first asked. Consecutive intervals in an answer are adjacent and cover the common height range exactly.",
 ["histories", "inputs"], "All query sequences over all pairs of segments.",
 "There is one cache test with one query.",
 ["src/order.rs", "src/curve/mod.rs"],
 [("ComparisonCache::compare_segments", "src/order.rs"), ("CurveOrder::flip", "src/curve/mod.rs")],
 ["ComparisonCache::compare_segments return values over a recorded query history"])

prop("C13", "The sweep line's sequence container behaves like a plain vector",
 "Under every sequence of insertions, removals, in-place updates and queries, the balanced-tree sequence used for the sweep line returns the same elements, lengths, iterations (reading and updating), sub-ranges and partition points as a plain growable array, for every branching factor from four up, no element is lost or duplicated, and its structural invariants hold after each step.",
 ["histories"], "All operation sequences x branching factors.",
 "The property tests in the tree use short random sequences and one branching factor; node splits, merges and borrowings at every depth need long skewed histories.",
 ["src/treevec.rs"],
 [("leaf/branch splitting, merging and borrowing", "src/treevec.rs")],
 ["TreeVec::insert, remove, get, get_mut, len, iter, iter_mut, range, range_mut, partition_point"])

prop("C14", "Splitting paths into monotone pieces is faithful",
 "Adding a path to an arena yields pieces that all run from top to bottom (left to right if horizontal), are vertically monotone, follow the input curve within floating-point accuracy and, taken in contour order with their recorded orientations, traverse exactly the input subpath from its start back to its start, in order, with no gap. Contour successor and predecessor are inverse, closed subpaths form cycles and open ones chains, and the entry and exit lists are sorted and list every piece exactly once at its own heights.",
 ["inputs", "histories"], "All paths, in any number and order, added through any of the constructors.",
 "Unit tests look at a handful of small paths and never at cumulative contents.",
 ["src/segments.rs", "src/geom.rs"],
 [("monotonic_pieces", "src/geom.rs"), ("add_path_impl / add_points", "src/segments.rs")],
 ["Segments API: indices, oriented_start/end, contour_next/prev, positively_oriented, entrances, exits"])

prop("C15", "Solving a curve for a given height is accurate",
 "For any vertically monotone cubic and any height within its range, the parameter found gives a point at that height up to floating-point accuracy relative to the coordinates, the end points give exactly parameters zero and one, the x found is that point's x, and a sub-curve cut out between two heights starts and ends at these heights on the curve and follows it.",
 ["inputs"], "All y-monotone cubics with finite coordinates over many magnitudes x all heights in range.",
 "Accuracy is numerical and depends on conditioning; the tests try random well-scaled curves with loose bounds.",
 ["src/curve/mod.rs", "src/geom.rs"],
 [("solve_t_for_y, solve_x_for_y, y_subsegment", "src/curve/mod.rs"), ("Segment::at_y, lower, upper", "src/geom.rs")],
 ["Return values of solve_t_for_y, solve_x_for_y, y_subsegment, Segment::at_y / lower / upper / min_x / max_x"])

prop("C16", "Quadratic sign analysis and parabola bounds are sound",
 "The sign analysis of a quadratic (including degenerate linear and constant ones) gives roots and an initial sign that agree with the sign of the function everywhere that is clearly away from its roots. The parabola estimate of a monotone cubic, with its stated lower and upper deviations, bounds the cubic's x at every height, and the helpers for shifting, evaluating and expanding quadratics agree with direct evaluation.",
 ["inputs"], "All finite quadratics over many magnitudes; all y-monotone cubics.",
 "The existing tests sample one class of coefficients and do not cover degenerate linear functions of both directions.",
 ["src/curve/mod.rs"],
 [("Quadratic::signs, shift, eval", "src/curve/mod.rs"), ("EstParab::from_cubic", "src/curve/mod.rs"), ("quad_parameters", "src/curve/mod.rs")],
 ["Return values of these functions compared with direct evaluation"])

prop("C17", "Results are deterministic and independent of history and of threads",
 "The same inputs give exactly the same result (same contours in the same order, bit-identical coordinates) on every call, in every process, whatever was computed before, on whichever thread, and whether scratch buffers are fresh or reused.",
 ["histories", "schedules", "inputs"], "All inputs x previous computations x threads x process runs.",
 "A test that runs each input once in one order cannot see dependence on hash seeds, buffer contents or concurrent use.",
 ["src/topology.rs", "src/sweep/sweep_line.rs", "src/order.rs"],
 [("buffers are cleared between uses", "src/sweep/sweep_line.rs SweepLineBuffers"), ("hash maps are used only for lookup", "src/order.rs, src/topology.rs")],
 ["Bit-exact serialisation of contours and of sweep event logs"])

prop("C18", "The internal self-checks never fire and never change a result",
 "Built with the optional expensive self-checks, with debug assertions and with arithmetic overflow checks, the library processes every closed input, at accuracies within the precision documented for curve comparisons, without any of these firing, and returns bit-identical results to the optimised build without them.",
 ["inputs", "configurations"], "All closed inputs x build configurations.",
 "The test suite runs the self-checks only on its own fixed inputs and does not compare configurations.",
 ["src/sweep/sweep_line.rs", "src/topology.rs", "src/curve/mod.rs", "src/treevec.rs"],
 [("slow-asserts feature, debug_assert", "src")],
 ["Panics of the checked build, and serialised results of both builds"])

prop("C19", "Boolean operations satisfy the algebra of sets",
 "On the same inputs, the results of the four operations satisfy set algebra up to eps along the boundary: swapping the operands of union, intersection and exclusive-or changes nothing, areas obey inclusion-exclusion, difference plus intersection gives the first operand, and combining a shape with itself or with nothing gives the shape itself or nothing. Running an operation on its own output is stable.",
 ["inputs", "histories"], "All pairs of closed paths x fill rules, related across operations and across repeated application.",
 "Each test looks at one operation in isolation; the identities relate several runs on arbitrary inputs.",
 ["src/lib.rs", "src/topology.rs"],
 [("BinaryOp/FillRule predicates", "src/lib.rs"), ("shared arrangement", "src/topology.rs")],
 ["Areas and winding numbers of the results of all operations on the same inputs"])

prop("C20", "How a drawing is presented does not matter",
 "Reordering subpaths, reversing all of a path, rotating a subpath's starting point, moving or mirroring the drawing, or scaling it together with eps by a power of two gives the same region up to eps; making lines into equivalent curves, or splitting edges at extra vertices, does not change it either.",
 ["inputs"], "All closed inputs x presentation-changing transformations.",
 "Tests fix one presentation of each drawing; the sweep treats directions, orders and tie-breaks very differently.",
 ["src/segments.rs", "src/sweep/sweep_line.rs", "src/topology.rs"],
 [("orientation-independent segment storage", "src/segments.rs"), ("tie-breaking on the sweep line", "src/sweep/sweep_line.rs")],
 ["Areas and winding numbers of results on transformed inputs"])

prop("C21", "Curves that touch nothing come out unchanged",
 "Where an input subpath is farther from everything else than a small multiple of eps, its pieces reappear in the output, once and in their order, if it bounds the result, and nothing of it if it does not: vertices between straight edges keep their exact coordinates, lines stay lines and curves keep their control points (a quadratic may come back as the equivalent cubic). Only within a few eps of places where it is nearly horizontal or turns may a curve be cut, its vertices move by up to a few eps, or tiny elements be added.",
 ["inputs"], "All inputs with isolated simple subpaths, next to arbitrary other geometry.",
 "Snapshots fix the output of a few drawings; the claim is that no far-away geometry perturbs or splits a curve.",
 ["src/topology.rs", "src/position.rs", "src/segments.rs"],
 [("merging of split pieces", "src/topology.rs can_merge"), ("copied range of positioned output", "src/position.rs copied_idx")],
 ["Elements of output contours compared with the input subpaths"])

prop("C22", "Contour nesting reported with the output is the real nesting",
 "The parent links of the returned contours form a forest in which each child alternates between outer boundary and hole, each hole's parent is an outer contour that contains it, and no other contour lies between a contour and its parent. A contour is marked outer exactly if it is not a hole of the result region, and grouping partitions all contours into top-level outer contours, each followed by exactly the contours that lie inside it.",
 ["inputs"], "All results of boolean operations.",
 "Nesting is tested on a few concentric and touching squares.",
 ["src/topology.rs"],
 [("west-neighbour scan for parents", "src/topology.rs Topology::contours"), ("Contours::grouped", "src/topology.rs")],
 ["Contour::parent, Contour::outer, Contours::grouped, Contours index"],
 [("parent", "index of the enclosing contour", "src/topology.rs Contour")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
