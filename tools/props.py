IN = ["inputs"]
PEND = "Not yet claimed: the check is under construction."
TR = "Trusts rustc's MIR, the std/i_float/i_shape models in sa/models.py and exact integer arithmetic (overflow is C07); loops are put into closed form, an unrecognised loop is reported."

prop("C01", "Each boolean rule selects exactly the boundary edges of its region",
  "For each rule (subject, clip, intersect, union, difference, inverse difference, xor) the edges kept for the result are exactly those with the rule's region on one side only, and the side reported as interior is the side where the region lies. This holds whether the edges are filtered while they are built or later from a complete graph. Kept edges keep their two end points and their fill code.",
  ["inputs", "configurations"], "every rule, every combination of the four side-inclusion bits of an edge, every number and position of edges",
  "The tests compare a few hundred concrete shapes; an edge class that none of the shapes produces under a rule is never looked at.",
  ["core/link.rs", "core/filter.rs", "core/overlay_rule.rs"],
  [("filter strategies", "core/filter.rs"), ("link builders", "core/link.rs"), ("top-side test", "core/overlay_rule.rs")],
  tech="abstract interpretation of MIR into decision diagrams, compared with the set-algebraic definition", note=TR)
prop("C02", "Fill rules classify both sides of every edge from winding numbers",
  "For every fill rule an edge's side is marked filled exactly when the winding number on that side satisfies the rule: even-odd odd, non-zero nonzero, positive greater than zero, negative less than zero, separately for subject and clip. The winding number above an edge is the one below it plus the edge's own count. Polyline edges additionally keep their direction marks and never change the winding number passed upwards from the subject.",
  ["inputs", "configurations"], "every winding number below an edge, every count of the edge, all four fill rules, polygons and polylines",
  "Tests use shapes with winding numbers between -2 and 2 and mostly even-odd and non-zero.",
  ["core/link.rs", "fill/solver.rs"], [("add_and_fill strategies", "core/link.rs"), ("fill sweep", "fill/solver.rs")],
  tech="abstract interpretation of MIR into decision diagrams, compared with the definition of each fill rule", note=TR)
prop("C03", "Edge counts form a consistent winding algebra",
  "Adding an edge in one direction and in the opposite direction cancels, adding counts is order-independent, and turning an edge around negates its subject and clip contribution (for polylines: swaps the two direction marks). An edge built from two points is stored with its smaller end first and carries the count of the direction it was given in.",
  IN, "every pair of points, every count, every shape type",
  "The tests sample a handful of counts; cancellation has to hold for every multiplicity.",
  ["segm/winding_count.rs", "segm/segment.rs", "segm/build.rs"], [("WindingCount impls", "segm/winding_count.rs"), ("create_and_validate, with_ab", "segm/segment.rs")],
  tech="abstract interpretation of MIR, algebraic identities over polynomials and bit terms", note=TR)
prop("C04", "Every contour enters the overlay as a closed chain",
  "Whatever contour is added, the edges put into the overlay form a closed chain: at every point of the plane, as many edge directions arrive as leave. Dropping collinear and repeated points never drops, adds or reverses part of the chain, and no edge without length is added. Adding several contours or shapes adds every one of them once, whole, as subject or clip as the caller said.",
  IN, "every contour: any number of points, repeated points, spikes, collinear runs, fewer than three points",
  "Tests add a few dozen fixed contours; degenerate start positions are only rolled for five of them.",
  ["segm/build.rs", "core/overlay.rs"], [("append_path_iter", "segm/build.rs")],
  tech="loop-invariant inference on MIR: pushed edges are formal chains, shown equal to the polyline read up to flat triangles", note=TR)
prop("C05", "Splitting an edge never loses, moves or reverses it",
  "Each recorded crossing marks the segments the point lies inside, and never a segment of which it is an end. Cutting an edge at its marks yields a chain of edges from its first to its last point through all its marks with the edge's own count, for every split strategy. Merging equal edges keeps the sum of their counts and drops only edges whose sum is zero.",
  IN, "every set of segments, every crossing report, all split strategies",
  "Tests exercise a few layouts per strategy; the chain law has to hold for any number of marks.",
  ["split/solver.rs", "split/solver_list.rs", "split/solver_tree.rs", "split/solver_fragment.rs", "segm/merge.rs"], [("cross, apply", "split/solver.rs"), ("merge", "segm/merge.rs")],
  tech="loop-invariant check on MIR: chain effects", note=TR)
prop("C06", "Pairwise segment intersection is exact up to one grid unit",
  "For any two segments, the intersection routine reports nothing exactly when they have no common point (common end points aside), reports a touching end exactly when an end of one lies inside the other, and reports overlap exactly for collinear segments. A proper crossing is reported at a point less than one grid unit from the true intersection in each coordinate, or at an end point when the rounded point lies within the snapping radius of that end. Which end points of collinear segments lie strictly inside the other one is answered exactly.",
  IN, "every pair of segments of coordinates within the supported range",
  "The tests hold about forty concrete pairs; sign and boundary cases are quadratic in the position of the four ends.",
  ["split/cross_solver.rs"], [("cross, collinear, middle_cross, cross_point", "split/cross_solver.rs")],
  tech="abstract interpretation of MIR into decision diagrams over orientation signs; loop invariant for the rounded division", note=TR)
prop("C07", "No arithmetic overflow for coordinates up to 2^30",
  "With every coordinate of magnitude below 2^30, no sum, difference, product, shift, negation or narrowing formed to compare segments and points, to intersect two segments, to choose the next edge at a node, or to place segments and lookups on the grid of columns leaves the range of its integer type. (The rounded division inside an intersection and the point it yields belong to C06.)",
  IN, "every combination of coordinates below 2^30 in magnitude",
  "Overflow needs extreme coordinates in specific places; the tests use small numbers.",
  ["split/cross_solver.rs", "geom/v_segment.rs", "core/nearest_vector.rs", "split/grid_layout.rs"], [("orientation determinants in i64", "geom/v_segment.rs")],
  tech="interval analysis of every arithmetic operation over the interpreted MIR, with relational refutation of what the intervals leave open", note=TR)
prop("C08", "The next edge at a node is the first one in the turning direction",
  "When candidates are offered one after another, in any order, the selector ends up with the candidate reached first when turning from the incoming edge about the node in the requested direction. The result does not depend on the order of the offers (except among exactly equal directions, or two directions on the line of the incoming edge, where the earlier one stays).",
  ["inputs", "histories"], "every node, incoming edge and sequence of candidates, both directions",
  "Tests offer a few fixed fans of candidates; the order of offers is a permutation space.",
  ["core/nearest_vector.rs"], [("NearestVector::new, add", "core/nearest_vector.rs")],
  tech="abstract interpretation of MIR; transition compared with the canonical state of the winner", note=TR)
prop("C09", "The fragment grid covers every segment",
  "When segments are cut into fragments on a grid of columns, the fragments of a segment lie in exactly the columns the segment spans, and inside each column the fragment's box contains the part of the segment that lies there. Two segments that meet in a column therefore have fragments in the same column whose boxes meet. Column borders, lookups and the grid built for a set of segments agree with each other.",
  IN, "every segment and every grid",
  "The tests compare a few grids by enumeration; rounding errors need specific slopes.",
  ["split/grid_layout.rs", "split/fragment.rs"], [("break_segment, index, borders", "split/grid_layout.rs")],
  tech="abstract interpretation of MIR with loop closed forms and floor inequalities", note=TR)
prop("C10", "Splitting a polyline into loops keeps its points and drops only small loops",
  "Splitting a path at repeated points returns pieces in which no point occurs twice, each made of consecutive remaining points of the path. Only pieces of fewer than three points, or below the minimal area, are dropped.",
  IN, "every path and minimal area",
  "Tests split about ten paths with minimal area zero.",
  ["string/split.rs"], [("split_loops", "string/split.rs")],
  tech="loop-invariant check on MIR: sequence algebra over the kept path and the position map", note=TR)
prop("C11", "Decomposing a contour at repeated points loses nothing",
  "Decomposing a contour that visits points more than once returns simple contours: no point occurs twice in one of them. The contours together contain exactly the edges of the original, in the same direction; a contour without repeated points is left alone.",
  IN, "every contour of three or more points",
  "Tests decompose about a dozen contours, none of which repeats its largest point.",
  ["core/divide.rs"], [("decompose_contours", "core/divide.rs")],
  tech="loop-invariant check on MIR: runs of sorted points and sequence algebra over the open paths", note=TR)
prop("C12", "Float sources are read completely, once and in order",
  "Iterating the paths of a source (one contour, a list of contours, or a list of shapes; slice, array or vector) yields every contour exactly once, in order, including those after empty shapes, and then ends for good. A single contour is yielded exactly once, even when it is empty.",
  ["inputs", "histories"], "every nesting and length of the source, including empty groups, every number of calls",
  "Tests iterate sources with one contour.",
  ["float/source/single.rs", "float/source/double.rs", "float/source/triple.rs"], [("Iterator impls", "float/source/triple.rs"), ("iter_paths impls", "float/source/double.rs")],
  tech="abstract interpretation of MIR: transition relation of the iterator state, checked against the sequence it stands for", note=TR)
prop("C13", "Style builders keep every setting and clamp it to its range",
  "Each builder call changes only its own setting. By the time they are used, round angles are clamped to 0.01 to 0.25 of pi and miter angles to 0.01 to 0.99 of pi; a stroke width set below zero becomes zero, and every other value is stored as given. Defaults are width 1, offsets 1, butt caps and bevel joins.",
  ["inputs", "configurations"], "every style, every argument, every order of calls",
  "No test looks at a style.",
  ["mesh/style.rs"], [("builders and normalize", "mesh/style.rs")],
  tech="abstract interpretation of MIR", note=TR)
prop("C14", "Vector helpers of the buffering code compute what they stand for",
  "Rotating a vector multiplies it by the rotation matrix of the angle or of the unit vector given, the normal of two points is the normalised difference, the orthogonal is the vector turned a quarter counterclockwise and scaled. The sharp corner of two offset edges is on both offset lines, and it is left out exactly when it falls on one of the two offset points after rounding.",
  IN, "every vector, angle and pair of offset edges",
  "Tests rotate one vector by 45 degrees in both directions.",
  ["mesh/rotator.rs", "mesh/math.rs", "mesh/miter.rs"], [("Rotator", "mesh/rotator.rs"), ("Math", "mesh/math.rs"), ("Miter::sharp", "mesh/miter.rs")],
  tech="abstract interpretation of MIR into rational expressions", note=TR)
prop("C15", "Orders of segments and points are the geometric ones",
  "Comparing two segments at the sweep line tells which one is lower from the exact orientation of their ends, comparing a point with a segment tells whether it lies above, on or below its line, and the counterclockwise order of two directions is the sign of their cross product. Lexicographic orders compare x, then y, of the first and then the second end. Bounding ranges, sort keys and fragment boxes are the ones of the segment.",
  IN, "every pair of segments and points",
  "Tests compare a few dozen pairs.",
  ["geom/v_segment.rs", "geom/x_segment.rs", "geom/id_point.rs", "geom/end.rs", "split/fragment.rs", "split/line_mark.rs"], [("comparisons", "geom/v_segment.rs")],
  tech="abstract interpretation of MIR into decision diagrams over orientation signs", note=TR)
prop("C16", "Every pair of segments that may meet is looked at",
  "With every split strategy (list, tree, fragments on a grid, in one or several threads), each round looks at every pair of segments whose boxes meet, passes the two segments of the pair with their own numbers, and keeps every mark and every request for another round. Another round follows while one was asked for and marks were found; it starts from the pieces of the round before, with no marks, fragments or border segments left over. The edges are sorted and merged before they are split, and whichever strategy takes over gets all of them.",
  ["inputs", "configurations"], "every set of segments, every number of rounds, every strategy and thread setting",
  "The tests split a few layouts; a pair passed over only shows if that pair crosses and nothing else repairs it.",
  ["split/solver_list.rs", "split/solver_tree.rs", "split/solver_fragment.rs", "split/grid_layout.rs", "split/solver.rs"],
  [("list_split", "split/solver_list.rs"), ("tree_split", "split/solver_tree.rs"), ("fragment_split, bin_split, on_border_split", "split/solver_fragment.rs"), ("clear", "split/grid_layout.rs")],
  tech="loop closed forms on MIR: obligations over pair loops, marks and flags carried by nested loops", note=TR + " i_tree's interval tree is trusted to return every unexpired item whose range meets the one asked for.")
prop("C17", "Vector edges and overlay nodes map fill sides and adjacency faithfully",
  "A vector edge built from an edge's fill code and two end points runs from the first to the second end and names as left and right the sides that really lie there, whichever way the edge is turned; paths built from vector edges list their start points in order. An overlay node of two edges holds both of them as a bridge, and one of any other number of edges holds all of them, in order.",
  IN, "every fill code, every pair of ends, every node",
  "Tests build a few vector shapes and do not look at the side marks of edges that run right to left.",
  ["vector/edge.rs", "core/node.rs"], [("VectorEdge::new, ToPath", "vector/edge.rs"), ("OverlayNode", "core/node.rs")],
  tech="abstract interpretation of MIR into decision diagrams over the fill bits", note=TR)
prop("C18", "The sweep gives every edge the counts of the region below it",
  "When the sides of the edges are classified, the winding count below the edges that start at a point is the one of the nearest live edge below that point, or zero when there is none, looked up before any edge of that point is added. All edges that start at the point are visited, bottom to top by their angle, and each takes over the count above the one visited before. Every edge gets one fill code, under its own index, and every edge that is not vertical becomes a live edge with its own ends and the count above it, whichever list of live edges is used.",
  IN, "every sorted set of edges that meet only at their ends, every number of edges at a point",
  "The tests look at final shapes; a wrong order of edges at a point needs slopes and lengths that disagree.",
  ["fill/solver.rs"], [("solve, fill", "fill/solver.rs")],
  tech="loop closed forms on MIR: one round of the sweep compared with its definition", note=TR + " i_tree's expiring lists are trusted to return the value of the greatest unexpired key not above the point.")
prop("C19", "The graph joins every link at both of its ends",
  "The overlay graph gives every point at which a link begins or ends one node, in sorted order. The node of a point holds exactly the links that begin or end there, each once, and both ends of every link carry the number of the node at that end; nothing else about the links changes.",
  IN, "every sorted list of links, every number of links at a point",
  "The tests look at final shapes, which need only a few of the node layouts; a node that misses a link, or a link numbered after the wrong node, shows only where the walk passes it.",
  ["core/graph.rs", "core/node.rs"], [("build_nodes_and_connect_links, OverlayGraph::new", "core/graph.rs")],
  tech="loop-invariant check on MIR: one round of a two-list merge compared with its definition", note=TR)
prop("C20", "Extraction walks every selected link and keeps every contour",
  "Extracting shapes walks the links the rule selects and no others. Every selected link not yet walked starts a contour, whatever became of the contours before it. The contour starts at the topmost of the unwalked links that leave the same point, goes from link to link - at a bridge to the other link, at a crossing to the nearest unwalked one in the walking direction - and ends when it is back where it began; it lists the points it passes in order, each link is marked walked as it is taken. A contour with the body above its first link becomes a hole, otherwise an outer contour; holes and outer contours are walked in opposite directions, so that outer contours have the direction asked for. A contour the area filter keeps is kept as what it is, with its first edge as the hole's anchor, or the leftmost edge found again when points were removed. Vector shapes are walked by the same rules with the fill of every edge, separate vectors are the links. String slices are walked over link sides by the same rules, and turned to the direction asked for.",
  ["inputs", "configurations"], "every graph, every selection of links, every rule, direction and area filter",
  "The tests compare final shapes of some hundred inputs, with one output direction for nearly all and no area filter; which link is taken where several meet, and what happens after a dropped contour, depends on the graph.",
  ["core/extract.rs", "vector/extract_vectors.rs", "string/extract.rs"], [("OverlayGraph::extract", "core/extract.rs"), ("extract_shape_vectors", "vector/extract_vectors.rs"), ("StringGraph::extract_shapes_custom", "string/extract.rs")],
  tech="loop-invariant check on MIR: one round of every walk as decision diagrams compared with its definition", note=TR)
prop("C21", "Every hole goes to the shape around it",
  "Each hole of a result becomes a hole of the shape that contains it. With a single shape it gets all holes. With several, the edges that have the body above them, of outer contours and of holes, are swept from left to right in the order of their first ends and angles; before a hole is looked up, exactly the edges that begin before its first edge or below it at the same point and still reach beyond are on the sweep line; the edge right below the hole's first edge decides: its outer contour is the shape, or its hole's shape is. Every hole is given to a shape exactly once, in order, and nothing else about the shapes changes. The same holds for vector shapes.",
  IN, "every set of outer contours and holes, every nesting and order, both directions",
  "The tests have few results with several shapes and holes, nearly none with holes that share a point, and for vector shapes none with more than one shape.",
  ["bind/segment.rs", "bind/solver.rs", "vector/extract_vectors.rs"], [("ShapeBinder, JoinHoles", "bind/solver.rs"), ("append_id_segments", "bind/segment.rs"), ("scan_join", "vector/extract_vectors.rs")],
  tech="loop-invariant check on MIR: one step of the sweep and the listing of edges compared with their definitions", note=TR)
prop("C22", "Clipping and slicing polylines keeps what was asked for",
  "Clipping polylines by a region keeps a piece exactly when it is inside the region and the rule is not inverted, or outside and it is; pieces running along the boundary are kept when the rule includes boundaries. A line is stored smaller end first with a mark of the direction it was given in, a path consists of the lines between neighbouring points, a contour also of the one from last to first, and lines without length are ignored. A direction mark is consumed when its piece is emitted, and only when walked in its direction. Slicing walks consume the side of a piece that faces the face being traced.",
  ["inputs", "configurations"], "every combination of fill bits, marks and clip rules, every path",
  "The tests clip about a dozen lines, most of them in one direction.",
  ["string/clip.rs", "core/link.rs", "string/overlay.rs", "string/split.rs", "string/extract.rs"], [("clip filters", "core/filter.rs"), ("add_string_*", "string/overlay.rs"), ("visit marks", "string/graph.rs")],
  tech="abstract interpretation of MIR into decision diagrams over fill bits and direction marks", note=TR)
prop("C23", "Contours of strokes and outlines are walked and kept like those of shapes",
  "The graph of a stroke or an outline has a link for every edge left after splitting, and its contours are walked over exactly the links with the filled area (positive winding) on one side only. Every such link not yet walked starts a contour, whatever became of the contours before it; contours are walked, cleaned, sorted into outer contours and holes and joined as those of shapes are, in the direction asked for. A contour is kept exactly when at least one of its links is part of the offset boundary (bold) and the area filter keeps it.",
  ["inputs", "configurations"], "every graph of offset edges, every distribution of bold edges, both directions, every minimal area",
  "No test of the offsetting code looks at weak contours or the order in which contours are found; contours that share their leftmost point with a weak or dropped one are not among the test data.",
  ["mesh/boolean.rs", "core/filter.rs", "core/link.rs"], [("extract_offset, get_fill_path, offset_graph_with_solver", "mesh/boolean.rs")],
  tech="loop-invariant check on MIR: one round of the walk and of the collection of contours compared with their definitions", note=TR)

prop("C24", "Entry points pass on exactly what the caller gave",
  "Every public way to build and evaluate an overlay, integer or float, long form or short form, adds each contour, path or line of each input exactly once, in the role its argument has, whatever the nesting of the input (contour, contours, shapes; string lines, paths and closed contours), and hands on the fill rule, overlay rule, direction, area limit, filter and solver it was given; the short forms use the documented defaults. Float forms round every coordinate with one adapter that was fitted to all points of all inputs, turn the area limit into integer units with that same adapter, and convert results back with it. Nothing is added that was not asked for, and nothing is evaluated from anything but what was added.",
  ["inputs", "configurations"], "every input of every nesting, every value of every option, every entry point",
  "The tests call a few of the entry points with default options; a shorthand that swaps two roles, drops an option or forgets a shape of a list looks the same on symmetric data.",
  ["core/overlay.rs", "core/simplify.rs", "float/overlay.rs", "float/graph.rs", "float/clip.rs", "float/slice.rs", "float/simplify.rs", "float/single.rs", "string/overlay.rs", "string/clip.rs", "string/slice.rs"],
  [("Overlay", "core/overlay.rs"), ("Simplify", "core/simplify.rs"), ("FloatOverlay", "float/overlay.rs"), ("FloatStringOverlay", "float/string_overlay.rs"), ("IntClip", "string/clip.rs"), ("IntSlice", "string/slice.rs")],
  tech="abstract interpretation of MIR with uninterpreted layers: each entry point's result and additions compared with the term its arguments ask for", note=TR)
prop("C25", "Strokes and outlines are made of closed rings around every path",
  "For every section between neighbouring distinct points a stroke or outline adds edges that lie the radius to its side (for strokes to both), and for every corner edges that lead from the end of one section's edge to the start of the next: together with the caps of an open path they form closed rings, with no edge left out, added twice or of length zero. Bevel, miter and round corners are turned to the side the path bends to, round ones step along the circle, and miters beyond their limit are cut. Caps are the half circle, square or given points scaled by the radius, put at the first and the last section. Repeated points are passed over wherever they occur. Builders get the radius, angle and cap of the style, and everything they add lies within the room asked of the adapter. A stroke is built of every path; an outline turns outer contours outwards and holes inwards and keeps degenerate ones out; results come back through the same adapter with the area limit given. The short forms are the long ones with counter-clockwise contours and the default filter.",
  ["inputs", "configurations"], "every path, radius, angle between sections, join, cap and option",
  "The tests stroke a few axis-parallel paths with whole-number widths, and none of them repeats a point or uses a cap that is not symmetric.",
  ["mesh/stroke/builder.rs", "mesh/stroke/builder_cap.rs", "mesh/stroke/builder_join.rs", "mesh/stroke/section.rs", "mesh/stroke/offset.rs", "mesh/outline/builder.rs", "mesh/outline/builder_join.rs", "mesh/outline/section.rs", "mesh/outline/offset.rs", "mesh/rotator.rs", "mesh/miter.rs", "mesh/math.rs", "mesh/subject.rs"],
  [("StrokeBuilder, Builder", "mesh/stroke/builder.rs"), ("CapBuilder", "mesh/stroke/builder_cap.rs"), ("JoinBuilder", "mesh/stroke/builder_join.rs"), ("Section", "mesh/stroke/section.rs"), ("StrokeOffset", "mesh/stroke/offset.rs"), ("OutlineOffset", "mesh/outline/offset.rs")],
  tech="abstract interpretation of MIR over exact coordinates: edges added by each block compared with the chain from corner to corner, walks over a path with a round-by-round invariant", note=TR)
prop("C26", "Walks over a graph stay inside of it",
  "Extracting shapes, offsets, vectors, slices and clipped lines never reads or writes behind the end of a list: every link and node a walk goes to and every mark it sets exists, every list of marks has one mark for each link, a point of a contour is asked for only if the contour has it, and a contour found valid has at least three points. Most of these accesses are unchecked, so a wrong number would be undefined behaviour and not a panic.",
  ["inputs", "configurations"], "every graph, overlay rule, slice or clip rule, direction, option and minimum area",
  "A wrong number shows only in the graph where it points behind the end, and with unchecked access often not even then; no test of extraction runs here at all.",
  ["core/extract.rs", "core/nearest_vector.rs", "core/filter.rs", "core/overlay.rs", "mesh/boolean.rs", "vector/extract_vectors.rs", "string/extract.rs", "string/clip.rs", "string/filter.rs", "string/graph.rs", "bind/solver.rs"],
  [("OverlayGraph, Visit, Validate, StartPathData", "core/extract.rs"), ("OverlayGraph", "mesh/boolean.rs"), ("OverlayGraph", "vector/extract_vectors.rs"), ("StringGraph", "string/extract.rs"), ("StringGraph", "string/clip.rs"), ("StringGraph", "string/graph.rs"), ("MaskFilter", "core/filter.rs")],
  tech="abstract interpretation of MIR with contracts inferred between functions (greatest set of facts about indices and lengths that every call and return establishes), loop invariants by the same elimination; every access an obligation", note=TR)
prop("C27", "The solver's settings are the ones used",
  "In every round of splitting, points snap to segments within a radius of two to the power of the precision's start plus its growth per round, up to 2^60, whichever of the list, tree and fragment strategies works and also when one hands over to another in between; every pair of segments a round looks at is judged by that round's radius. Lists or fragments asked for by name are what splitting starts with, trees asked for never give way to lists (very many segments are split in fragments even then), and segments are filled by lists when lists are asked for and by trees when trees or fragments are. Threads are used only if multithreading options are given. The named precisions and solvers have their documented values, and the constructors keep what they are given.",
  ["inputs", "configurations"], "every solver (strategy, precision start and growth, multithreading), every number of rounds and every list of segments",
  "The tests use the default solver and two or three others on inputs that split within one or two rounds, where all radii give the same result.",
  ["core/solver.rs", "split/snap_radius.rs", "split/solver.rs", "split/solver_list.rs", "split/solver_tree.rs", "split/solver_fragment.rs", "fill/solver.rs"],
  [("Solver, Precision, Strategy", "core/solver.rs"), ("SnapRadius", "split/snap_radius.rs"), ("SplitSolver", "split/solver.rs"), ("SplitSolver::list_split", "split/solver_list.rs"), ("SplitSolver::tree_split", "split/solver_tree.rs"), ("SplitSolver::fragment_split", "split/solver_fragment.rs")],
  tech="abstract interpretation of MIR: round-by-round invariant on the exponent of the radius, path conditions under which each strategy and each thread pool is reached, constants compared with their documentation", note=TR)
