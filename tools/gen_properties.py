#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/"
p("C01", "Orientation predicates are exact for every coordinate type",
  "For any three points, the turn direction reported through two points, along a direction vector, or along the perpendicular of a vector is the sign of the exact real-number determinant, and comparing two points along a vector is the sign of the exact dot product. This holds for every supported coordinate type over its whole range (for floats: every input whose intermediate products neither overflow nor underflow), and no call panics or overflows. A list of points is reported colinear exactly when one line contains all of them.",
  ["inputs", "configurations"], "every triple of points and every vector, in each of i8, i16, i32, i64, isize, BigInt, BigRational, f32, f64, OrderedFloat, NotNan and rug::Integer",
  "The tests call the predicates on a handful of triples and a fixed grid of i8 corners that only checks for panics; sign errors that need extreme or near-colinear coordinates of one particular type are never sampled.",
  [S+"lib.rs", S+"orientation.rs", S+"data/point.rs", S+"data/vector.rs"],
  [("per-type slope comparison with widened magnitudes or exact arithmetic", S+"lib.rs PolygonScalar impls"), ("Orientation::new / along_vector / along_perp_vector", S+"orientation.rs")],
  ["return value of the orientation functions and of comparison along a vector"])
p("C02", "Distance comparison is exact and overflow-free",
  "Comparing the distances from one point to two others returns exactly the order of the true squared Euclidean distances. This holds for every supported coordinate type and any finite coordinates, including the extremes of fixed-width integers, without panicking.",
  ["inputs", "configurations"], "every triple of points in each supported coordinate type",
  "Existing tests never compare against an exact reference near the overflow boundary where the squared sums wrap.",
  [S+"lib.rs", S+"data/point.rs"], [("widened / arbitrary precision squared distance comparison", S+"lib.rs cmp_dist")], ["cmp_distance_to result"])
p("C03", "Counter-clockwise ordering around a point is the exact angular order",
  "Comparing two points (or vectors) counter-clockwise around a centre starting from a non-zero reference direction orders them by their exact angle in [0, 2*pi) from that direction, and reports equality exactly when the angles are equal, with the centre itself counting as angle 0. Sorting vectors around the origin returns a permutation of the input with non-decreasing angle.",
  ["inputs", "configurations"], "all centres, reference vectors and point pairs of every coordinate type; all slices of vectors",
  "Tests compare single pairs; consistency of a comparator (antisymmetry, transitivity, the 0/180 degree cases) is a statement about all pairs and triples.",
  [S+"orientation.rs", S+"data/point.rs", S+"data/vector.rs"], [("ccw_cmp_around_with", S+"orientation.rs"), ("sort_around", S+"data/vector.rs")], ["comparison results", "sorted slice"])
p("C04", "Colinear tie-breaking is consistent with one symbolic perturbation",
  "Breaking a colinear tie by three distinct indices gives the orientation the points (i, 2^i) would have, so it is antisymmetric under swaps and invariant under rotation of the indices, for every triple of 32-bit indices; a non-colinear orientation is never changed by tie-breaking. Chaining, reversing and resolving orientations obey the same algebra (reverse is an involution, colinear is the neutral element of chaining).",
  ["inputs"], "all triples of distinct u32 indices and all orientation values",
  "The property tests sample u8 and random u32 triples of one entry point; index patterns near u32 limits and the other combinators are not exercised.",
  [S+"orientation.rs"], [("SoS::new, break_ties, sos, then, reverse", S+"orientation.rs")], ["returned SoS and Orientation values"])
p("C05", "Rays and lines cross segments exactly under the leaning rule",
  "A ray is reported to cross a segment exactly when the part of it strictly after its origin meets the segment's interior transversally, or meets exactly one endpoint, in which case the reported lean is the side of the other endpoint; segments lying on the ray's line never cross. A full line crosses a segment exactly when the endpoints are on different sides, points on the line counting as on its left.",
  ["inputs", "configurations"], "all rays, lines (given by vector or through point) and segments, any open or closed endpoints, every coordinate type",
  "Unit tests fix a few axis-parallel configurations; degenerate contacts (origin on the segment, endpoint behind the origin) are a measure-zero family that random tests do not reach.",
  [S+"data/line.rs"], [("half-line and line versus segment intersection", S+"data/line.rs")], ["intersect result"])
p("C06", "Segment intersection and containment are exact for open/closed ends",
  "Two segments with any mix of open and closed ends are reported as intersecting exactly when the two point sets share a point; for non-degenerate segments the report is an overlap exactly when they are colinear, and then it is exactly the shared sub-segment with the right open or closed ends. The decision is symmetric, and a point is contained in a segment exactly when it belongs to that point set. Of two ends the leftmost (rightmost) is the one at the lesser (greater) point, and at the same point it is open if either is.",
  ["inputs", "configurations"], "all pairs of segments (including single-point ones), all endpoint kinds, all coordinate types",
  "A few dozen hand-written cases and one small property test; the product of endpoint kinds, shared endpoints, colinear overlaps and degenerate segments is far larger.",
  [S+"data/line_segment.rs", S+"data/directed_edge.rs"], [("case analysis on four orientations and endpoint kinds", S+"data/line_segment.rs")], ["intersect / contains result"])
p("C07", "Listing intersecting segments reports every pair exactly once",
  "Listing the intersections of a set of segments yields precisely the unordered pairs of distinct entries whose point sets meet, each pair once, for any number, order and multiplicity of segments.",
  ["inputs"], "all finite lists of segments or directed edges",
  "Tests check one fixed picture.",
  [S+"algorithms/intersection/naive.rs"], [("pairwise enumeration", S+"algorithms/intersection/naive.rs")], ["yielded pairs"])
p("C08", "Line intersection points are exact",
  "Intersecting two lines given by pairs of distinct points returns nothing exactly when the lines are parallel, and otherwise the unique common point, exactly for rational coordinates and for integer coordinates whenever that point has integer coordinates.",
  ["inputs", "configurations"], "all pairs of lines with exact coordinate types (no overflow of intermediate products)",
  "No existing test checks the coordinates of the intersection against an independent computation.",
  [S+"data/line.rs"], [("Line::intersection_point", S+"data/line.rs")], ["returned point"])
p("C09", "Polygon construction accepts exactly the simple polygons",
  "Building a polygon succeeds exactly when the vertices are at least three, pairwise distinct and their closed chain does not touch or cross itself; the result has the same vertices in the same cyclic order, reversed if needed to run counter-clockwise. Validation of an unchecked polygon succeeds exactly for counter-clockwise simple polygons, and validating a polygon with repeated points reports them, while building from fewer than three vertices reports that.",
  ["inputs", "configurations"], "all vertex lists of any length and coordinate type",
  "Tests validate a few good polygons and bad triangles; near-simple chains (touching vertices, spikes, colinear overlaps, zero-area) in arbitrary rotation are not covered.",
  [S+"data/polygon.rs", S+"data/polygon/iter.rs"], [("new / validate / ensure_ccw", S+"data/polygon.rs")], ["Result of construction and validation", "boundary iteration of the result"])
p("C10", "Locating a point in a simple polygon is exact",
  "For every simple polygon and every point, the answer is boundary exactly when the point lies on an edge or vertex, and otherwise inside exactly when the winding number is one.",
  ["inputs", "configurations"], "all simple polygons (any starting vertex, any internal vertex numbering) and all query points, all coordinate types",
  "Tests use a fixed polygon and convex shapes; queries level with vertices, horizontal edges and reflex chains are the interesting measure-zero cases.",
  [S+"data/polygon.rs"], [("leaning-ray crossing parity", S+"data/polygon.rs locate")], ["locate result"])
p("C11", "Convex polygons are located and validated exactly",
  "For every strictly convex counter-clockwise polygon and every point, the convex locator gives the exact location, identical to the general locator. Validation of a convex polygon succeeds exactly when the polygon is simple, counter-clockwise and every vertex turns strictly left.",
  ["inputs", "configurations"], "all strictly convex polygons of any size, root vertex and numbering, and all points (including those on diagonals, vertices and extended edges)",
  "The property test only compares points in general position with small polygons.",
  [S+"data/polygon/convex.rs", S+"data/triangle.rs"], [("binary search over the fan of the first vertex", S+"data/polygon/convex.rs locate")], ["locate and validate results"])
p("C12", "Triangles: location, area, box, orientation and sampling are exact",
  "A triangle is accepted exactly when its points turn left; re-orienting construction keeps the three points and makes them turn left; location, signed area and bounding box equal the exact values. Random sampling always returns a point of the closed triangle, and can reach every lattice point of an integer triangle.",
  ["inputs", "configurations"], "all point triples, query points and random streams",
  "Only bounding box and one location case are tested.",
  [S+"data/triangle.rs"], [("orientation tests per edge, box rejection sampling", S+"data/triangle.rs")], ["return values"])
p("C13", "The default convex hull is the exact minimal hull",
  "For any list of points the hull fails exactly when all points lie on one line, and otherwise returns exactly the extreme points of the set, once each, in counter-clockwise order, forming a strictly convex polygon that contains every input point. Duplicates, colinear runs and input order never change the result as a cyclic sequence.",
  ["inputs", "configurations"], "all finite point lists of every coordinate type",
  "The property tests check containment for random small sets, not minimality, order, or colinear and duplicate-heavy sets.",
  [S+"algorithms/convex_hull/graham_scan.rs"], [("angular sort and left-turn stack", S+"algorithms/convex_hull/graham_scan.rs")], ["returned polygon or error"])
p("C14", "Gift wrapping computes the same exact hull and terminates",
  "For any list of points, including repeated points, gift wrapping terminates and fails exactly when all points lie on one line, and otherwise returns exactly the extreme points, once each, in counter-clockwise order.",
  ["inputs", "configurations"], "all finite point lists of every coordinate type",
  "Tests use random sets in which the starting point is never repeated and colinear runs are rare.",
  [S+"algorithms/convex_hull/gift_wrapping.rs"], [("repeated selection of the most clockwise point with distance tie-break", S+"algorithms/convex_hull/gift_wrapping.rs")], ["returned polygon or error"])
p("C15", "Melkman's hull of a simple polygon is exact",
  "For every simple polygon the polygon hull returns exactly the extreme vertices, once each, in counter-clockwise order, whatever the starting vertex, the internal vertex numbering, or runs of colinear vertices.",
  ["inputs", "configurations"], "all simple polygons (as built by the constructor, by mapping or by the polygonization algorithms)",
  "Unit tests cover a handful of literal polygons; starting in the middle of a colinear run or with storage order different from boundary order is not covered.",
  [S+"algorithms/convex_hull/melkman.rs"], [("deque maintained along the boundary", S+"algorithms/convex_hull/melkman.rs")], ["returned convex polygon"])
p("C16", "Ear-clipping triangulation is a correct triangulation",
  "For every simple polygon with n vertices, triangulation terminates and yields exactly n-2 triples of its vertices, each strictly counter-clockwise, whose areas add up to the polygon's and which pairwise do not overlap, using every boundary edge once and every diagonal twice in opposite directions. This holds for any random stream driving the choice of ears and any vertex numbering.",
  ["inputs", "schedules"], "all simple polygons, all random streams, all scalar types",
  "Tests only compare the summed area on random polygons with one fixed stream.",
  [S+"algorithms/triangulation/earclip.rs", S+"data/polygon.rs"], [("ear test against all remaining vertices, candidate store", S+"algorithms/triangulation/earclip.rs")], ["yielded triples"])
p("C17", "Hash-accelerated triangulation is a correct triangulation",
  "The hash-accelerated variant, for every simple polygon over every hashable coordinate type, terminates and yields exactly n-2 strictly counter-clockwise non-overlapping triples of polygon vertices that use each boundary edge once and each diagonal twice, regardless of coordinate magnitude, aspect ratio or random stream.",
  ["inputs", "schedules"], "all simple polygons over i8, i64 and f64 coordinates, all random streams",
  "Tests compare area on random small-range polygons, so that neighbours skipped by a wrong hash range would not be noticed.",
  [S+"algorithms/triangulation/earclip.rs", S+"algorithms/zhash.rs"], [("z-order window scan around the candidate ear", S+"algorithms/triangulation/earclip.rs is_ear_hashed")], ["yielded triples"])
p("C18", "Z-order hashing is a bijection, monotone on boxes, and tells points apart",
  "Interleaving two 32-bit values places bit i of the first at position 2i and of the second at 2i+1, and un-interleaving inverts it for every pair and every 64-bit word. For every hashable coordinate type and bounding box, a point inside any sub-box of the box hashes between the hashes of the sub-box's lower-left and upper-right corners; in the integer types, when both sides of the box are shorter than 2^32, distinct points of the box have distinct hashes.",
  ["inputs"], "all u32 pairs, all u64 words; all boxes, sub-boxes and points for i8, i64, f64, u32, u64",
  "Tests check the round trip of random pairs; monotonicity, which the triangulation relies on, is not tested.",
  [S+"algorithms/zhash.rs"], [("bit interleaving and per-type scaling", S+"algorithms/zhash.rs")], ["hash values"])
p("C19", "Random polygonization always yields a simple polygon on all points",
  "For any list of at least three distinct points that are not all on one line, and any random stream, polygonization terminates and returns a simple counter-clockwise polygon that visits every given point exactly once. Duplicate points, too few points and all-colinear inputs are reported as errors.",
  ["inputs", "schedules", "histories"], "all point lists and all random streams choosing which intersection to repair next",
  "Property tests draw tiny random sets and one stream; the interesting histories are sequences of repairs on colinear, grid-like inputs.",
  [S+"algorithms/polygonization/two_opt.rs", S+"data/intersection_set.rs", S+"data/polygon.rs"],
  [("2-opt uncrossing and colinear kink removal", S+"algorithms/polygonization/two_opt.rs"), ("incremental intersection bookkeeping", S+"data/intersection_set.rs")], ["returned polygon"],
  state=[("intersection set", "must equal the set of intersecting edge pairs after every repair", S+"data/intersection_set.rs")])
p("C20", "Untangling a polygon in place keeps its vertices and makes it simple",
  "Resolving the self-intersections of any closed chain with distinct, not all colinear vertices terminates for every random stream and leaves a simple counter-clockwise polygon with the same points under the same vertex identifiers, never with a longer perimeter; a chain that is already simple keeps its cyclic order.",
  ["inputs", "schedules", "histories"], "all closed chains (including those already reordered by earlier operations) and all random streams",
  "Only one regression input is tested.",
  [S+"algorithms/polygonization/two_opt.rs", S+"data/polygon.rs"], [("resolve_self_intersections", S+"algorithms/polygonization/two_opt.rs"), ("vertices_reverse / vertices_join", S+"data/polygon.rs")], ["polygon after the call"])
p("C21", "The intersection set behaves as a set with per-edge removal",
  "After any sequence of insertions of distinct intersections and per-edge removals, iteration yields exactly the intersections inserted and not removed, each once; per-edge lookup is present exactly for edges with a remaining intersection. A random pick is a member of the set, absent exactly when the set is empty, and every member can be picked.",
  ["histories"], "all sequences of push, remove-all and random operations",
  "There is a single unit test; linked-list and free-slot reuse errors need particular operation histories.",
  [S+"data/intersection_set.rs", S+"utils.rs"], [("sparse vector with dense index and doubly linked per-edge lists", S+"data/intersection_set.rs, "+S+"utils.rs")], ["iteration, lookup and random results"])
p("C22", "Monotone polygons: generation and recognition are exact",
  "Generating a monotone polygon for a non-zero direction from any points with at least three distinct, not all colinear members succeeds and returns a simple counter-clockwise polygon over exactly the distinct input points that is monotone in that direction, also when points tie along the direction or lie on one line between the extremes; too few distinct points and all-colinear inputs are reported as errors. The monotonicity test holds exactly when walking the boundary the projection on the direction rises in one contiguous stretch and falls in the other.",
  ["inputs", "configurations"], "all point lists, directions and simple polygons",
  "Tests use random points in general position with two directions and never a non-monotone generated polygon.",
  [S+"algorithms/polygonization/monotone.rs"], [("sort along direction and split by the min-max line", S+"algorithms/polygonization/monotone.rs")], ["returned polygon / error / bool"])
p("C23", "Star polygons visit all points in angular order and see their centre",
  "Building a star polygon around a centre either fails, or returns a simple counter-clockwise polygon over exactly the given points in angular order around the centre. It succeeds whenever the points have pairwise different directions from the centre and no gap of half a turn or more, and then every segment from the centre to a vertex stays inside the polygon.",
  ["inputs", "configurations"], "all point lists and centres",
  "Two literal tests exist.",
  [S+"algorithms/polygonization/star.rs", S+"orientation.rs"], [("angular sort then validated construction", S+"algorithms/polygonization/star.rs")], ["returned polygon or error"])
p("C24", "The visibility polygon is exactly the region seen from the point",
  "For every simple polygon with exact rational coordinates and every strictly interior viewpoint, the visibility polygon is a simple counter-clockwise polygon contained in the input such that a point in general position belongs to it exactly when the segment from the viewpoint to it does not leave the polygon. It terminates without panicking for viewpoints in line with several vertices too.",
  ["inputs"], "all simple polygons and interior viewpoints with exact coordinates",
  "Five literal polygons are tested.",
  [S+"algorithms/visibility/naive.rs", S+"data/line.rs"], [("left/right leaning rays through each vertex", S+"algorithms/visibility/naive.rs")], ["returned polygon"])
p("C25", "Random convex polygons satisfy their documented shape",
  "For every requested size, fixed-width integer coordinate type and random stream, the sampled polygon is strictly convex and simple with at most the requested number (at least three) of vertices, its lowest (then leftmost) vertex is the origin, and its width and height both equal the largest coordinate value. The same stream gives the same polygon.",
  ["inputs", "schedules"], "all sizes, all integer types, all random streams that eventually give non-colinear vectors",
  "The property test validates polygons of a few types and sizes; it does not check root, width or height.",
  [S+"data/polygon/convex.rs"], [("zero-sum random vectors sorted by angle", S+"data/polygon/convex.rs")], ["returned polygon"])
p("C26", "Area, centroid, bounding box and orientation are exact",
  "For every closed vertex chain the doubled and plain signed area equal the exact shoelace value in any result type able to hold it, and the bounding box is exactly the coordinate extremes. For every simple polygon the orientation is the sign of its area and, in exact arithmetic, the centroid is the exact centroid; all are independent of the starting vertex.",
  ["inputs", "configurations"], "all polygons, coordinate types and result types",
  "Tests check single polygons; dependence on rotation, numbering, sign and wide result types is not covered.",
  [S+"data/polygon.rs"], [("shoelace sums over boundary edges", S+"data/polygon.rs")], ["return values"])
p("C27", "Affine transforms act and compose as the maths says",
  "Translation, scaling and uniform scaling map every point, vector and polygon vertex to exactly the mathematically transformed coordinates in any dimension, a product of transforms acts as applying the right factor first, and owned and borrowed forms agree. Applying a transform to a polygon keeps its vertex order and identifiers; normalizing a polygon moves its centroid to the origin and scales its larger side to one.",
  ["inputs", "configurations"], "all chains of transforms over points, vectors and polygons in 1 to 4 dimensions",
  "Only two-dimensional inverse pairs are tested.",
  [S+"transformation.rs", S+"matrix.rs", S+"data/polygon.rs"], [("homogeneous matrices", S+"matrix.rs, "+S+"transformation.rs")], ["transformed coordinates"])
p("C28", "Boundary traversal and vertex identifiers are consistent",
  "For every polygon, however it was produced, walking the boundary forwards or backwards (by iterator from both ends, by ranges between two vertices, by edges or step by step) visits each vertex once in one cyclic order with an exact remaining length, next and previous are inverse, and each vertex identifier leads back to the same vertex and point. Directing an edge returns its endpoints in boundary order, and a vertex is an ear exactly when it is convex and its triangle contains no other vertex.",
  ["inputs", "histories"], "all polygons (constructed, reversed, untangled, mapped) and all interleavings of front and back iteration",
  "Tests iterate forwards on constructed polygons only; reordered polygons and double-ended use are not covered.",
  [S+"data/polygon.rs", S+"data/polygon/iter.rs"], [("position index and ring arrays kept in step", S+"data/polygon.rs"), ("CursorIter", S+"data/polygon/iter.rs")], ["iterators, cursors, identifiers"],
  state=[("position index", "inverse of the ring array", S+"data/polygon.rs")])
p("C29", "Point and vector arithmetic and conversions are exact",
  "Adding, subtracting, negating, scaling, dividing and summing points and vectors act coordinate-wise in every owned, borrowed and assigning form and every dimension, never changing other operands. Viewing a point as a vector shows the same coordinates, squared distances and magnitudes equal the exact sums, and converting between floats, integers and rationals is exact or correctly rounded, with non-finite or NaN values rejected where the target cannot hold them. A random point or vector is that many random coordinates drawn in turn.",
  ["inputs", "configurations"], "all operands, dimensions and coordinate types within range",
  "Only a few operator instances are called by tests.",
  [S+"data/point.rs", S+"data/point/add.rs", S+"data/point/sub.rs", S+"data/vector.rs", S+"data/vector/add.rs", S+"data/vector/sub.rs", S+"data/vector/mul.rs", S+"data/vector/div.rs"],
  [("operator impls", S+"data/point/*, "+S+"data/vector/*"), ("transparent point-to-vector view", S+"data/vector.rs")], ["result coordinates"])
p("C30", "Equality, ordering and hashing are consistent total orders",
  "Points and vertex cursors compare lexicographically by numeric coordinate value in a total order in which equality, comparison and hashing agree (zero and negative zero are the same coordinate), for every coordinate type. Two non-empty polygons compare equal exactly when one boundary is a rotation of the other. Segment ends, segments, edges, identifiers, intersections and reported overlaps are equal exactly when all their parts are, open and closed ends being different, and where they are ordered the order is total and agrees with that equality.",
  ["inputs", "configurations"], "all pairs and triples of points, all pairs of polygons, every coordinate type",
  "No test checks order axioms or polygon equality against rotations in general.",
  [S+"lib.rs", S+"data/point.rs", S+"data/polygon.rs"], [("TotalOrd impls", S+"lib.rs"), ("equals", S+"data/polygon.rs")], ["comparison results"])
p("C31", "Results depend only on the arguments and the random stream",
  "Calling any algorithm twice with equal arguments and equal random streams gives identical results, whatever ran before, in whichever thread and with whatever other calls running at the same time; input polygons and slices passed by reference are unchanged.",
  ["histories", "schedules"], "all calls, all preceding histories and all thread interleavings",
  "No test repeats a call or runs calls concurrently and compares outputs.",
  ["src/algorithms", S+"data/polygon.rs", S+"data/polygon/convex.rs"], [("no global state, fixed seeds for internal choice", S+"algorithms/triangulation/earclip.rs")], ["bitwise results of repeated and concurrent calls"])
p("C32", "All coordinate types agree on the same coordinates",
  "For the same exactly representable input, every algorithm makes the same decisions and returns the same vertices in the same order in every coordinate type that can hold it, and scaling all coordinates by a power of two or translating them within range does not change any combinatorial result.",
  ["inputs", "configurations"], "all inputs representable in several types; all exact scalings and translations",
  "Tests instantiate one or two types per function and never compare types.",
  [S+"lib.rs", "src/algorithms", "src/data"], [("all decisions go through the per-type exact comparisons", S+"lib.rs")], ["outputs per type"])
p("C33", "Work stays within the documented complexity",
  "The number of coordinate comparisons and arithmetic operations performed stays within the documented growth: logarithmic for convex location, constant for triangle location and vertex access, n log n for the default hull and random convex polygons, n times hull size for gift wrapping, linear for point location, measures and polygon hull, constant for adding to and drawing from the intersection set, and quadratic for validation, segment listing and triangulation.",
  ["inputs"], "all inputs up to several thousand vertices, including adversarial families",
  "Tests measure no operation counts; benches only measure time.",
  ["src/algorithms", "src/data"], [("documented time complexity of each function", "doc comments")], ["operations counted by an instrumented coordinate type"])
p("C34", "Documented-total functions never panic or hang on hostile input",
  "Constructors, validators, hulls, polygonizations, predicates and set operations return (an answer or an error value) for every input including empty, tiny, repeated, colinear, extreme and adversarially ordered points and adversarial random streams; they do not panic, overflow, exhaust memory or loop.",
  ["inputs", "schedules"], "all inputs of every coordinate type within the stated domain of each function",
  "The no-panic property tests draw random generic inputs, which almost never are degenerate.",
  ["src"], [("total error handling", "src")], ["panics, overflow traps, CPU and memory budgets"])
p("C35", "Safe calls never cause undefined behaviour",
  "No sequence of calls to the safe public API causes undefined behaviour: no invalid memory access, uninitialised read, aliasing violation or data race, including when viewing points as vectors of any coordinate type and when values are shared between threads.",
  ["inputs", "histories", "schedules"], "all API call sequences and thread interleavings",
  "Ordinary test execution cannot observe undefined behaviour.",
  [S+"data/vector.rs", S+"data/point.rs"], [("transparent representation makes the reference cast valid", S+"data/point.rs, "+S+"data/vector.rs")], ["Miri and AddressSanitizer diagnostics"])
p("C36", "Mapping a polygon's coordinates preserves its structure",
  "Mapping, casting, converting or normalising the coordinates of a polygon, or editing them through the mutable iterator, applies the function to each vertex exactly once and leaves the boundary order, vertex identifiers and starting vertex as they were, including for polygons whose boundary order differs from their numbering.",
  ["inputs", "histories"], "all polygons and coordinate functions",
  "Tests map only freshly constructed polygons.",
  [S+"data/polygon.rs", S+"data/polygon/iter.rs", S+"data/polygon/convex.rs"], [("map / map_points / cast / float / iter_mut", S+"data/polygon.rs")], ["mapped polygon's vertices by identifier and by boundary"])
p("C37", "The playground server stores and serves gists faithfully",
  "The playground web server compiles submitted code and serves, for each stored gist, the artefacts belonging to that gist only.",
  ["inputs", "fault_sequences"], "all requests to the playground server",
  "There are no tests for it.",
  ["playground/server"], [("rocket handlers", "playground/server")], ["HTTP responses"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
