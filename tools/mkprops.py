#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook="src/verif.rs facade (cfg geos_verif)"):
    a = {"files": ["src/core/" + f for f in files], "mechanism": [{"name": n, "where": "src/core/" + w} for n, w in mech],
         "observe_at": observe or ["return values of the public functions"], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("C01", "Orientation of three points is exact and consistent under relabelling",
 "For any three points the reported turn (left, right, collinear) is the exact sign of the triangle's area, however large, tiny, unequal in size or nearly collinear the coordinates are (as long as extended precision can tell); the fast floating-point filter either says so too or declares itself unsure, never a wrong side. Rotating the triple keeps the answer, swapping two points negates it, and the orientation of a segment relative to a line is the side it lies on (zero when it is collinear or crosses).",
 ["inputs"], "all triples of points / segments over exactly representable coordinates, including all symmetries, scales, offsets and shears",
 "The existing tests check a handful of triples (one near-collinear); the failure modes live in rounding-sensitive inputs that must be enumerated systematically.",
 ["algorithm/orientation.rs", "algorithm/cg_algorithms_dd.rs", "geom/line_segment.rs", "math/dd.rs"],
 [("Orientation::index", "algorithm/orientation.rs"), ("orientation filter with DD fallback", "algorithm/cg_algorithms_dd.rs")])

prop("C02", "Point-in-ring and point-on-line location is right for every ring",
 "For every closed ring (self-touching, self-crossing, with repeated points, horizontal edges or spikes) and every point, the location is BOUNDARY exactly when the point lies on an edge or vertex, and otherwise INTERIOR or EXTERIOR by the even-odd rule. The answer does not depend on the starting vertex, the direction, the order in which edges are fed, or which of the coordinate representations holds the ring. A point is reported on a line exactly when it lies on one of its segments.",
 ["inputs", "histories"], "all rings and polylines, all query points, all orders of feeding segments to the incremental counter",
 "Tests locate a few points against one or two rings; the crossing rule's special cases (vertex on the ray, horizontal edge on the ray, local extremum at ray height) need every combination.",
 ["algorithm/ray_crossing_counter.rs", "algorithm/point_location.rs"],
 [("ray crossing counting", "algorithm/ray_crossing_counter.rs"), ("on-segment test", "algorithm/point_location.rs")],
 state=[("crossing count, on-segment flag", "accumulated over the segments fed so far")])

prop("C03", "Segment intersection is classified exactly, symmetrically, and without history",
 "For any two segments of non-zero length the intersector reports none, a single point (proper exactly when interior to both), or a collinear overlap, according to the exact geometry. Single endpoint intersections and overlap endpoints are returned with exactly the input coordinates; a proper intersection point lies in both segments' envelopes and agrees with the true point up to rounding. The outcome does not depend on the order or direction of the segments nor on what the same intersector was used for before; testing a point against a segment reports an intersection exactly when the point lies on it. The endpoint named nearest is one that no other is closer to the opposite segment than.",
 ["inputs", "histories"], "all pairs of segments (shared endpoints, T, cross, collinear overlapping/touching/disjoint, parallel, huge and nearly parallel) and all sequences of uses of one intersector object",
 "Tests cover a few fixed pairs and never reuse an intersector object or permute the arguments.",
 ["algorithm/robust_line_intersector.rs", "algorithm/intersection.rs", "geom/line_segment.rs"],
 [("envelope test, four orientation tests, collinear case analysis", "algorithm/robust_line_intersector.rs")],
 state=[("result, proper flag, intersection points", "the outcome of the last computation")],
 hook="src/verif.rs facade and read access to result/is_proper (cfg geos_verif)")

prop("C04", "Ring orientation agrees with the ring's signed area",
 "For every valid ring (and rings with repeated points or flat collapsed tops) the counter-clockwise test is true exactly when the ring's enclosed area is traversed counter-clockwise, wherever the ring starts; reversing the ring flips the answer and flat rings are reported as not counter-clockwise. The area-based test agrees with the sign of the signed area for every ring.",
 ["inputs"], "all simple rings with any start vertex, direction, repeated points and flat tops, in all embeddings",
 "No existing test exercises ring orientation directly.",
 ["algorithm/orientation.rs", "algorithm/area.rs"],
 [("cap detection at the highest point", "algorithm/orientation.rs"), ("signed area", "algorithm/area.rs")])

prop("C05", "Area and length are exact on exactly representable input",
 "The signed area of a ring is the shoelace area (positive for clockwise), independent of starting vertex, negated by reversal and unchanged by translation; the area of a polygon is the shell's area minus its holes' areas, and of a collection the sum over its members. Length is the sum of segment lengths, unchanged by reversal; a polygon's length includes all its rings.",
 ["inputs"], "all rings, lines, polygons with any number of holes, and collections, in any order and orientation",
 "Tests compute a few areas and lengths; holes, orientation of holes, repeated points and collections are barely sampled.",
 ["algorithm/area.rs", "algorithm/length.rs", "geom/polygon.rs", "geom/multi_polygon.rs", "geom/line_string.rs", "geom/multi_line_string.rs"],
 [("shoelace sum relative to the first point", "algorithm/area.rs"), ("segment length sum", "algorithm/length.rs")])

prop("C06", "Centroids are the exact barycentre of the highest dimension present",
 "The centroid of an areal geometry is its area-weighted barycentre with holes subtracted, independent of ring orientation, starting vertex and member order. If the total area is zero it is the length-weighted barycentre of the edges, and if that is zero too the average of the points; lines and points behave accordingly. Empty members contribute nothing, an empty geometry has no centroid, and a geometry carrying a fixed precision model reports the grid point nearest to its centroid (one carrying a single-precision model, the single-precision numbers nearest to it).",
 ["inputs", "histories"], "all sequences of points, lines, polygons (with holes, degenerate or empty) accumulated into one centroid computation",
 "Existing tests compute centroids for a couple of multi polygons only.",
 ["algorithm/centroid.rs"], [("accumulators for points, lines and areas", "algorithm/centroid.rs")],
 state=[("area, line and point sums", "accumulated over the components added so far")])

prop("C07", "Distances are exact, symmetric, and zero exactly when things meet",
 "The distance between a point and a segment, two segments, or a point and a polyline is the minimum over all pairs of their points: zero exactly when they meet, symmetric under exchanging or reversing segments, and degenerate segments behave as points. The perpendicular distance to a line is the exact height of the triangle, and its oriented form carries the side of the line. Three-dimensional point and segment distances do the same in space.",
 ["inputs"], "all points, segments and polylines in the plane and in space, including degenerate, parallel, collinear, crossing and touching ones",
 "Three distance tests exist; case boundaries (projection outside, parallel overlap, zero length) are not enumerated.",
 ["algorithm/distance.rs", "algorithm/cg_algorithms_3d.rs", "geom/line_segment.rs"],
 [("projection parameter case analysis", "algorithm/distance.rs"), ("clamped parameters in space", "algorithm/cg_algorithms_3d.rs")])

prop("C08", "Envelopes behave as closed rectangles with a null element over any history",
 "After any sequence of initialising, including points or envelopes, buffering, translating and clearing, an envelope describes exactly the closed rectangle those operations define, or the null (empty) rectangle. Intersection, union, containment, covering, disjointness, distance, area, centre and equality answer as for those rectangles; the null envelope intersects, contains, covers and is covered by nothing, and shrinking below zero extent yields null.",
 ["histories", "inputs"], "all sequences of envelope mutations followed by any query with another envelope or point, null ones included",
 "Tests try a few literal rectangles; they do not explore operation histories, null interplay or shared edges and corners systematically.",
 ["geom/envelope.rs"], [("min/max bounds with null encoding maxx < minx", "geom/envelope.rs")],
 state=[("minx, maxx, miny, maxy", "the rectangle, null when max < min")])

prop("C09", "Octagonal envelopes are the tight octagon of everything included",
 "After any sequence of inclusions of points, lines, rectangles or other octagons and of expansions, an octagonal envelope's eight bounds are the extremes of x, y, x+y and x-y over what was included (moved out by the expansion). It contains and intersects points and other octagons exactly by those bounds, and an empty one includes, contains and intersects nothing.",
 ["histories", "inputs"], "all sequences of inclusions and expansions, followed by any query against a point or another octagon, empty ones included",
 "There is no existing test of octagonal envelopes.",
 ["geom/octagonal_envelope.rs"], [("bounds on x, y, x+y, x-y", "geom/octagonal_envelope.rs")],
 state=[("eight bounds", "extremes of x, y, x+y, x-y")])

prop("C10", "DE-9IM matrices follow the pattern algebra over any history of updates",
 "After any sequence of set, set-at-least, set-by-string, merge and transpose operations every entry of an intersection matrix is what those operations define: set-at-least never lowers an entry and merging takes the entrywise maximum. Every named predicate (disjoint, intersects, touches, crosses, within, contains, covers, coveredBy, equals, overlaps) agrees with its DE-9IM pattern definition for every combination of dimensions, and matching against a pattern string means matching entry by entry. Transposition is an involution that exchanges within with contains and covers with coveredBy.",
 ["histories", "inputs"], "all update sequences, all matrices over {F,0,1,2}, all patterns over {T,F,*,0,1,2}, all dimension pairs",
 "Tests use some twenty literal matrices out of 262144 and few update sequences.",
 ["geom/intersection_matrix.rs", "geom/dimension.rs", "geom/location.rs"],
 [("3x3 matrix and pattern matching", "geom/intersection_matrix.rs")], state=[("3x3 matrix of dimensions", "the DE-9IM entries")])

prop("C11", "Coordinate lists keep order and the no-repeat rule over any history",
 "After any sequence of additions (single, at an index, ranges, forwards or backwards, whole lists) a coordinate list holds exactly the added coordinates in order, where an addition that forbids repeats is skipped precisely when it would put two coordinates with equal x and y next to each other at the point of insertion. Closing a list appends its first coordinate unless it is already closed or empty, and array views are the same sequence, optionally reversed.",
 ["histories"], "all sequences of list operations with and without repeats allowed",
 "Existing tests perform two or three operations on one list.",
 ["geom/coordinate_list.rs"], [("repeat check against neighbours", "geom/coordinate_list.rs")], state=[("coordinates", "the sequence held")])

prop("C12", "Coordinate sequences store and rearrange whole coordinates without loss",
 "In both the array-backed and the packed representation, reading, writing, copying, cloning and extracting coordinates round-trips every ordinate (X, Y, Z and M) at every index. Reverse, swap, copy-range, scroll, extend and ring-closing rearrange whole coordinates, never mixing or dropping ordinates, and leave untouched positions unchanged; reversing twice and scrolling to the same coordinate are the identity. Envelope expansion, closedness, minimum-coordinate, index and equality queries answer as for the plain list of coordinates, also between sequences of different layouts, and the two representations always agree.",
 ["histories", "inputs"], "all sequence operations at all indices and lengths, all dimension/measure layouts (XY, XYZ, XYM, XYZM), both representations",
 "Tests use short fixed sequences, mostly XY, and rarely compare the representations.",
 ["geom/implementation/coordinate_array_sequence.rs", "geom/implementation/packed_coordinate_sequence_double.rs", "geom/coordinate_array_sequences.rs", "geom/packed_coordinate_sequences.rs", "geom/coordinate.rs"],
 [("per-ordinate storage", "geom/implementation"), ("generic sequence algorithms", "geom/coordinate_array_sequences.rs")],
 state=[("coordinate tuples", "the sequence content with all ordinates")])

prop("C13", "Coordinate array utilities agree with their sequence-level meaning",
 "Removing repeated points keeps exactly the first of each run and is idempotent; ring and validity tests, envelopes, extraction of ranges, index lookup, minimum coordinate, scrolling, reversal, copying, layout enforcement and rectangle filtering of arrays give what the plain sequence of coordinates determines, without losing ordinates. Comparison of arrays is a consistent total order, zero exactly for sequences equal in the plane, and the increasing direction is the one that compares smaller.",
 ["inputs"], "all coordinate arrays up to moderate length, all indices and range bounds",
 "Tests cover a few of the functions on one or two arrays each.",
 ["geom/coordinate_arrays.rs"], [("array algorithms", "geom/coordinate_arrays.rs")])

prop("C14", "All orderings are total orders consistent with equality",
 "Comparing coordinates, envelopes, segments, coordinate sequences, lines, rings, polygons, points and precision models is a total preorder: antisymmetric, transitive, zero on equals, and lexicographic in the documented order (x then y; ordinate by ordinate; element by element, shorter first). Equality in the plane, with tolerance, and including height agree with the ordinates compared.",
 ["inputs"], "all pairs and triples of values, including equal prefixes, different lengths, different heights, NaN heights and dimension limits",
 "Tests compare a few pairs; transitivity and antisymmetry are universally quantified.",
 ["geom/coordinate.rs", "geom/coordinate_sequence_comparator.rs", "geom/envelope.rs", "geom/line_segment.rs", "geom/line_string.rs", "geom/linear_ring.rs", "geom/polygon.rs", "geom/point.rs", "geom/precision_model.rs"],
 [("lexicographic comparison", "geom/coordinate.rs, geom/coordinate_sequence_comparator.rs")])

prop("C15", "Copies and reversals of geometries keep structure and content",
 "Copying any point, line, ring, polygon (with any holes) or multi-geometry gives an equal, independent geometry with the same members, coordinates and precision model; later changes to one are not visible in the other. Reversing reverses the coordinate order of each component, keeps their number, order and nesting, and reversing twice gives back the original. Component access and counts (points, holes, members, start, end, boundary dimension, emptiness) reflect the content.",
 ["inputs", "histories"], "all geometry types, all numbers of components including none and empty components",
 "Existing tests never copy or reverse polygons with holes or multi-geometries.",
 ["geom/point.rs", "geom/line_string.rs", "geom/linear_ring.rs", "geom/polygon.rs", "geom/multi_point.rs", "geom/multi_line_string.rs", "geom/multi_polygon.rs"],
 [("copy/reverse of components", "geom/*.rs")])

prop("C16", "Geometry envelopes are the exact bounding boxes of their coordinates",
 "The envelope of a geometry is the smallest rectangle holding all its coordinates, null exactly when it is empty, the same on the first and on every later request, and unaffected by reversal, copying and normalisation. Envelopes of coordinate arrays and sequences visit every coordinate.",
 ["inputs", "histories"], "all geometries, including empty ones and empty members, and repeated requests",
 "Tests check the envelope of one multi point.",
 ["geom/point.rs", "geom/line_string.rs", "geom/linear_ring.rs", "geom/polygon.rs", "geom/multi_point.rs", "geom/coordinate_arrays.rs", "geom/implementation"],
 [("lazy envelope computation", "geom/*.rs")], state=[("cached envelope", "the bounding box computed on first request")])

prop("C17", "Normalisation is canonical: it forgets start and direction and nothing else",
 "Normalising a line puts it in the direction in which it compares smaller; normalising a polygon makes its shell start at its minimum coordinate and run clockwise, its holes likewise but counter-clockwise, and sorts the holes; normalising a segment puts its smaller endpoint first. The result has the same points, is unchanged by normalising again, and is the same for every starting vertex, direction and hole order of the same geometry.",
 ["inputs", "histories"], "all lines, segments and polygons, all rotations and reversals of their rings and permutations of their holes",
 "No existing test normalises a polygon or a line; canonicity relates all equivalent inputs to each other.",
 ["geom/line_string.rs", "geom/polygon.rs", "geom/line_segment.rs"],
 [("minimum coordinate scroll, orientation, sort", "geom/polygon.rs")])

prop("C18", "Precision models snap to the nearest grid value, monotonically and once",
 "With a fixed precision model, making a value precise gives the nearest multiple of the grid size with ties going to the larger value, for scales given directly or as a negative grid size; the result is idempotent and monotone, at every magnitude, and NaN stays NaN. A single-precision model rounds to the nearest 32-bit float and the full floating model changes nothing; making a coordinate precise changes only x and y. Models order by their significant digits, which grow with the scale.",
 ["inputs", "configurations"], "all values on and between grid points, all scales (positive, negative grid sizes), all model types",
 "No test rounds with a precision model.",
 ["geom/precision_model.rs"], [("scaled rounding", "geom/precision_model.rs")])

prop("C19", "Quadrants, positions, dimensions and locations follow their tables",
 "The quadrant of a non-zero vector is the one containing it, with each axis belonging to its documented quadrant; opposite, common half-plane and half-plane membership of quadrants follow from the geometry of the four quadrants, and a zero vector is rejected. Swapping left and right is an involution fixing the on-position, and symbols of dimensions and locations convert back to the value they came from, rejecting unknown ones.",
 ["inputs"], "all vectors and point pairs, all quadrant pairs, all positions, dimension values and symbols",
 "There is no test of these tables.",
 ["geom/quadrant.rs", "geom/position.rs", "geom/dimension.rs", "geom/location.rs"],
 [("case tables", "geom/quadrant.rs")])

prop("C20", "Segment operations obey exact Euclidean geometry",
 "Projection, projection factor, closest point, closest points, reflection, offset, point-along, midpoint and segment fraction of a segment give the exact Euclidean answer up to rounding, clamped to the segment where documented. Projections lie on the line and are perpendicular, reflection is an involution that keeps distances, closest points realise the distance between the segments, and projecting a segment gives the projected part or nothing. Reversing a segment changes none of the undirected answers.",
 ["inputs"], "all segments and points or pairs of segments, including horizontal, vertical, degenerate and collinear ones",
 "Tests try a few values for each operation on one or two segments.",
 ["geom/line_segment.rs"], [("segment algebra", "geom/line_segment.rs")])

prop("C21", "Triangle computations satisfy their defining equations",
 "Area, signed area, three-dimensional area, perimeter, centroid, circumcentre, in-centre, acuteness, containment orientation, angle bisector and height interpolation of a triangle equal their exact values up to rounding: the circumcentre is equidistant from the three vertices also for far-away or thin triangles, interpolated heights reproduce the vertex heights and are affine. Signed area is negated by swapping vertices, unchanged by rotation; nothing else depends on the order of the vertices.",
 ["inputs"], "all triangles, including right, obtuse, degenerate, thin, and far from the origin",
 "Tests sample a few triangles per function.",
 ["geom/triangle.rs"], [("determinant formulas", "geom/triangle.rs")])

prop("C22", "Angles normalise to their range and relate consistently",
 "The angle of a vector, the angle between vectors, oriented and interior angles, and acute/obtuse tests agree with the exact sign and magnitude of dot and cross products of the vectors. Normalisation maps every angle, of any number of turns, to the documented half-open range changing it only by whole turns, differences lie in [0, pi], conversion between degrees and radians round-trips, and the turn between two directions has the sign of the rotation from the first to the second.",
 ["inputs"], "all pairs and triples of directions, all multiples of a 24th of a turn over several to very many turns",
 "Tests check a few angles for each function.",
 ["algorithm/angle.rs"], [("normalisation and comparison of angles", "algorithm/angle.rs")])

prop("C23", "Extended-precision arithmetic is exact where results are representable",
 "Addition, subtraction, multiplication, squaring, integer power, negation, absolute value, comparison, floor, ceiling, rounding, truncation and determinants of extended-precision numbers are exact whenever operands and true result need at most 99 significant bits, including values that do not fit an ordinary double, and otherwise right to about thirty digits. Division, reciprocal and square root are accurate to the extended precision, the decimal magnitude is that of the leading digit, comparisons form a total order of the represented values, non-mutating operations leave their operands unchanged, and NaN propagates.",
 ["inputs", "histories"], "all operand pairs over integers and dyadics spanning both components, all operation sequences",
 "Tests check a few identities with a loose tolerance, which a loss of the low component passes.",
 ["math/dd.rs"], [("error-free transformations", "math/dd.rs")], state=[("hi, lo", "the represented value is their exact sum")])

prop("C24", "Vectors and linear systems obey linear algebra",
 "Vector sums, differences, scalings, dot and cross products, lengths, distances, midpoints, weighted sums, quarter turns, rotations, normalisation and equality in two and three dimensions equal their exact values; quarter turns compose, and operations do not change their operands. Solving a square linear system returns the exact solution up to rounding for every regular matrix in every row order, and nothing for a singular one whose elimination involves no rounding.",
 ["inputs"], "all small integer vectors and square systems up to order 4, including those that need pivoting and singular ones",
 "Vector tests sample single vectors; no test solves a linear system.",
 ["math/vector_2d.rs", "math/vector_3d.rs", "math/matrix.rs"], [("component formulas; Gaussian elimination with partial pivoting", "math")])

prop("C25", "Numeric utilities respect their ranges",
 "Clamping stays within and is the identity inside its bounds for reals and integers; wrapping takes an index from 0 on modulo the maximum and counts a negative one back from the maximum; ceiling division (whatever the signs), average, minimum and maximum of several values and approximate equality equal their mathematical meaning, and the quasirandom and shuffle helpers give values in range and permutations; repeated shuffling reaches every arrangement.",
 ["inputs"], "all small integer arguments including negatives and bounds, and many random ones",
 "There is no test of these helpers.",
 ["util/math_util.rs", "util/number_util.rs"], [("integer and float helpers", "util/math_util.rs")])

prop("C26", "Heights at intersections come from the segments they lie on",
 "When segments carrying heights intersect, an intersection at an endpoint keeps a height present there (at an endpoint shared by two segments of different direction the first segment's before the second's, and none if neither has one), otherwise the height is interpolated linearly along the other segment, on which it lies; where collinear segments share an endpoint, it may be taken as the end of either. A proper intersection takes the mean of the two interpolated heights, or the only one available; when one end of a segment has no height the segment is taken as level at its other one, with none at all the result has no height, and x and y are never affected.",
 ["inputs"], "all segment pairs with every combination of present, equal and missing heights on the four endpoints",
 "No existing test intersects segments with heights.",
 ["algorithm/robust_line_intersector.rs"], [("height interpolation", "algorithm/robust_line_intersector.rs")])

prop("C27", "Line intersection points are accurate and absent exactly for parallel lines",
 "The intersection of two infinite lines is returned exactly when they are not parallel and agrees with the true rational point to within rounding, in every argument order and direction and also far from the origin; the extended-precision, homogeneous and conditioned variants agree with it. The line-segment variant returns a point exactly when the line meets the segment (the segment's first endpoint when collinear, nothing when either is degenerate), and proper segment intersections computed under a precision model are the true point rounded to that model's grid.",
 ["inputs", "configurations"], "all pairs of lines and line-segment pairs, parallel, perpendicular, nearly parallel, far from the origin",
 "Tests check about ten fixed line pairs.",
 ["algorithm/intersection.rs", "algorithm/cg_algorithms_dd.rs", "algorithm/hcoordinate.rs", "geom/line_segment.rs"],
 [("conditioned and extended precision determinants", "algorithm/intersection.rs")])

prop("C28", "Geometry construction keeps its input, whatever route it takes",
 "Every geometry built through the factory or a constructor reports exactly the coordinates, order and members it was given, including emptiness, dimension and measure counts and extra ordinates, and the precision model of the factory reaches what reports one. Building the same geometry by different routes gives equal results, and changing the input afterwards does not change the geometry.",
 ["inputs", "configurations"], "all small inputs to every creation route, all precision models and coordinate layouts",
 "Tests only build the few geometries they need.",
 ["geom/geometry_factory.rs", "geom/linear_ring.rs", "geom/line_string.rs", "geom/point.rs", "geom/polygon.rs", "geom/coordinates.rs", "geom/implementation/coordinate_array_sequence_factory.rs", "geom/implementation/packed_coordinate_sequence_factory.rs"],
 [("constructors", "geom/*.rs")])

prop("C29", "Single coordinates keep their ordinates and compare by position",
 "A coordinate holds x, y and, where present, a height and a measure. Over any sequence of constructions, copies and assignments, by name or by ordinate index, every ordinate reads back as the value last given to it and no assignment touches another ordinate; an index that names no ordinate reads as absent and changes nothing. A freshly created coordinate of a given number of ordinates and measures is at the origin with a zero measure where its layout has one. The reported layout (XY, XYM, XYZM, number of ordinates and measures) follows the ordinates present, and validity the finiteness of x and y. 2D equality, 3D equality (absent heights equal), the tolerance comparisons and the lexicographic order agree with the ordinate values, and plane and spatial distances are the Euclidean ones.",
 ["inputs", "histories"], "all short histories of assignments and all pairs of small coordinates, at scales from 2^-1000 to 2^1000",
 "Tests set a few ordinates and compare a few hand-made coordinates.",
 ["geom/coordinate.rs", "geom/coordinates.rs", "util/number_util.rs"],
 [("Coordinate, Coordinates", "geom/coordinate.rs")])

prop("C30", "Printed forms say exactly what the printed object holds",
 "The text of a coordinate, coordinate sequence, envelope, vector, precision model or component dump of an extended-precision number names every number it shows in its fixed place and order, in enough digits to read the very same double back, at any magnitude; a missing height reads as not-a-number. Reading the text gives back what was shown, so objects that show different values never print alike. After a change of one ordinate, through any assignment, the text shows the new value there and everything else as before.",
 ["inputs", "histories"], "all small objects, sequences up to 3 points (5 thorough) and short histories of changes, each under ordinate tables of full 53-bit doubles from subnormal to huge",
 "No test looks at printed forms.",
 ["geom/coordinate.rs", "geom/envelope.rs", "geom/precision_model.rs", "geom/implementation/coordinate_array_sequence.rs", "math/vector_2d.rs", "math/vector_3d.rs", "math/dd.rs"],
 [("Display of Coordinate", "geom/coordinate.rs")])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, sch)
    assert len(p["title"]) <= 80, p["id"]
