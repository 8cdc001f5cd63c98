"""Writes /verif/properties.jsonl (the list of properties, kept here in a readable form)."""
import json
import os

S = "src/pyrusgeom/"
P = []


def prop(pid, title, statement, over, domain, why, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": domain},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


prop("C01", "Angles stay normalised and congruent through any history of operations",
     "After construction, setting, or any history of in-place or pure angle operations (add, subtract, scale, divide in place, negate, reverse, copy, normalise), an angle's degree value lies in [-180, 180] and is congruent modulo 360 to the exact result; a result that already lies in that interval is kept unchanged. The degree, radian, absolute, unit-interval, float and text readings of an angle all describe that one value. In-place operations update and return the same object, pure ones leave their operands untouched.",
     ["inputs", "histories"], "all finite degree values up to magnitude 1e9, all sequences of angle operations with numeric or angle operands",
     "test_angle_deg.py samples about ten angles and no operator (+, -, *, +=, negation) at all, and never a sequence of them.",
     ["angle_deg.py"], [("AngleDeg.normal", "angle_deg.py:normal"), ("operators call normal() or build through the constructor", "angle_deg.py:__iadd__ ... __neg__")])

prop("C02", "Angle ordering, sweep membership and bisection respect the circle",
     "An angle is left (right) of another exactly when the other is reached by turning strictly between 0 and 180 degrees in increasing (decreasing) degrees, the or-equal forms add the same direction, and 180 and -180 count as the same direction; an angle is within [left, right] exactly when a turn from left in increasing degrees reaches it no later than right. The bisector of two angles that are neither equal nor opposite is the direction half way along the turn from the first to the second in decreasing degrees, and for every pair it lies on their symmetry axis. Plain numbers and angle objects are interchangeable as arguments.",
     ["inputs"], "all pairs and triples of angles, including the +-180 seam, exact coincidences, opposite angles and unnormalised numeric arguments",
     "Tests use 20/30/45-degree triples only: no wrap-around, no seam, no opposite or coincident directions, one bisector.",
     ["angle_deg.py"], [("is_left_of / is_right_of / is_left_equal_of / is_right_equal_of", "angle_deg.py"), ("is_within", "angle_deg.py:is_within"), ("bisect", "angle_deg.py:bisect")])

prop("C03", "Degree trigonometry is correct, total and invertible",
     "Sine, cosine and tangent of an angle, and their static forms on raw degrees, equal the real functions of that many degrees; degree-radian conversion round-trips. Arc functions invert them over their principal ranges, and arc sine and arc cosine accept any real, clamping outside [-1, 1] to the end of their range. The two-argument arc tangent returns the quadrant-correct angle in [-180, 180], and 0 when both coordinates are below 1e-6 in magnitude.",
     ["inputs"], "all finite degrees up to 1e6, all finite ratios and coordinate pairs",
     "One value per function is tested, never a quadrant other than the first for the arc tangent and never an out-of-range argument.",
     ["angle_deg.py", "math_values.py"], [("cos/sin/tan and *_deg", "angle_deg.py"), ("DEG2RAD / RAD2DEG", "math_values.py")])

prop("C04", "Vector arithmetic agrees with componentwise arithmetic over any history",
     "Over any sequence of constructions, assignments, in-place updates (add, subtract, scale, reverse, component setters, augmented assignment) and pure operations (sum, difference, product and quotient by a number, negated, absolute and copied vectors), each vector holds the componentwise result (to the rounding of one floating-point operation), including when a vector is its own operand. In-place updates change only their receiver; pure operations change nothing and give a new vector. All construction forms (two numbers, another vector, keyword x/y, keyword radius/angle, nothing) give the vector they describe and every other combination of arguments is rejected.",
     ["inputs", "histories"], "all finite coordinates up to 1e9, all histories over a pool of vectors with aliasing between operands",
     "Tests run each operation once on one or two small integers; aliasing and sequences are untested.",
     ["vector_2d.py"], [("operators and mutators", "vector_2d.py"), ("constructor dispatch", "vector_2d.py:__init__")])

prop("C05", "Vector length, direction, rotation and products are mutually consistent",
     "Polar construction, length and direction are inverse to each other; rotation preserves length and adds to the direction, setting the direction preserves length, and setting the length (or normalising) preserves direction and leaves vectors not longer than 1e-6 unchanged. Distance is the length of the difference, squared forms are the squares, and the inner and outer products equal |a||b|cos and |a||b|sin of the turn from a to b. In-place and new-vector forms of each operation give the same vector, and angles may be numbers (unnormalised) or angle objects.",
     ["inputs"], "all vectors with coordinates up to 1e6 and all finite angles up to 1e6 degrees",
     "Tests check one rotation by 90 degrees and a few coarse polar conversions (tolerance 0.1); products are never tested.",
     ["vector_2d.py", "angle_deg.py"], [("from_polar/set_polar/rotate/set_dir/set_length/inner_product/outer_product/dist", "vector_2d.py")])

prop("C06", "Equality, hashing and validity of geometric values are coherent",
     "Two points are equal exactly when both coordinates are equal (a non-point is never equal), equal points hash alike and so behave as one element of sets and dictionaries; exact and weak (1e-6) equality of points, segments, angles, sizes, sectors, rays, transforms and lines is reflexive, symmetric, true for objects built from the same data and false when any defining component differs by clearly more than the tolerance. Equality of lines is equality as point sets, however their coefficients are scaled. A point marked invalid stays invalid through every form of copying, and becomes valid again only by validation or by taking over a valid point.",
     ["inputs", "histories"], "all pairs of values of each type, including perturbations of each single component, and all copy chains of valid and invalid points",
     "Only four equality calls on hand-picked objects are tested; hashing and copies of invalid points are not.",
     ["vector_2d.py", "segment_2d.py", "line_2d.py", "ray_2d.py", "sector_2d.py", "size_2d.py", "matrix_2d.py", "angle_deg.py"],
     [("__eq__/__hash__/equals/equals_weakly", "all classes"), ("is_valid flag", "vector_2d.py")])

prop("C07", "Lines pass through what defines them; distance and projection are exact",
     "A line built from two distinct points, a point and a direction, coefficients, another line or keywords is the line so described: it contains its defining points and has the given direction. For any scaling of the coefficients, distance (and its square) to a point is the Euclidean one, the projection is the foot of the perpendicular, the perpendicular through a point is orthogonal and passes through it, the perpendicular bisector of two points more than 1e-6 apart is the set of points equidistant from them and the angle bisector halves its two directions. Solving for x at a given y (or y at x) gives a point of the line, or the value 1e20 when the needed coefficient is below 1e-6.",
     ["inputs"], "all lines through points up to 1e4 in magnitude at least 0.01 apart, all directions, all coefficient scalings, all query points",
     "Every line test uses an axis-parallel or diagonal line through the origin and at most two query points.",
     ["line_2d.py"], [("constructor", "line_2d.py:__init__"), ("dist/dist2/projection/perpendicular/perpendicular_bisector/angle_bisector/get_x/get_y", "line_2d.py")])

prop("C08", "Lines intersect in their unique common point, or are reported parallel",
     "Two lines whose coefficient cross product is at least 1e-6 in magnitude intersect in a valid point that lies on both, independent of argument order and of coefficient scaling; below that they are reported parallel and the intersection is an invalid point. The parallel test and the intersection never disagree.",
     ["inputs"], "all pairs of lines built by any constructor, including parallel, coincident and nearly parallel pairs around the threshold",
     "Tests intersect one axis-parallel pair; near-parallel, scaled and general-position lines are not sampled.",
     ["line_2d.py"], [("line_intersection / is_parallel", "line_2d.py")])

prop("C09", "Rays meet lines and rays only ahead of their origin",
     "A ray built toward a point or along a direction keeps its origin and has that direction, and its supporting line contains it. Its intersection with a line or another ray is the intersection of the supporting lines when that point lies ahead of every ray involved, and an invalid point otherwise (behind, or parallel). A point counts as in the right direction exactly when the direction from the origin to it differs from the ray's by less than the threshold angle.",
     ["inputs"], "all rays in all directions, all lines and rays, all thresholds, points not within 1e-3 of a ray's origin",
     "One ray-ray intersection and four direction tests, all in the first quadrant; behind-the-origin cases are not tested.",
     ["ray_2d.py", "line_2d.py"], [("in_right_dir / intersection", "ray_2d.py")])

prop("C10", "Segment intersection predicates agree with exact geometry",
     "Two segments are reported to intersect exactly when they share a point (crossing, touching, overlapping, degenerate to a point), and to intersect except at end points exactly when they cross properly; a segment intersects a line exactly when its ends are not strictly on one side. The computed intersection point with a line or segment is the exact common point when the lines are not parallel and that point lies on the segment(s), with contacts at an end point reported only when end points are allowed, and is an invalid point otherwise. All of this is symmetric in the two segments and independent of their orientation.",
     ["inputs"], "all pairs of segments on an integer or dyadic grid up to 1000 (so that exact arithmetic decides), with touching, collinear, overlapping and degenerate pairs over-represented",
     "Four configurations of axis-parallel segments are tested; no diagonal, collinear-overlap, T-contact or degenerate case.",
     ["segment_2d.py", "triangle_2d.py"], [("exist_intersection / exist_intersection_except_endpoint / intersection / check_intersects_on_line", "segment_2d.py"), ("double_signed_area_st", "triangle_2d.py")])

prop("C11", "Segment distances, nearest points and membership are the true ones",
     "The distance from a segment to a point or to another segment is the minimum over its points (zero exactly when they meet), the nearest point attains it and lies on the segment, and the farthest distance is the maximum. The projection is the foot of the perpendicular when that falls on the segment and invalid otherwise; strict membership is exact, weak membership tolerates 1e-6, and the bounding test holds exactly for points in the segment's axis-parallel bounding rectangle (a point may lie outside by as much as keeps the product of its coordinate differences to the two end points below 1e-9). Length, direction, copies, reversal and every construction form describe the same two end points.",
     ["inputs"], "all segments (including degenerate) and points up to 1e4 in magnitude, all pairs of segments",
     "All metric tests use one vertical segment and points on simple offsets.",
     ["segment_2d.py"], [("dist/nearest_point/farthest_dist/projection/on_segment/on_segment_weakly/contains", "segment_2d.py")])

prop("C12", "Circle membership and area; circle meets lines, rays and segments exactly",
     "A circle contains exactly the points strictly closer to its centre than its radius, its area is pi r^2, and a negative radius counts as zero, whether constructed or assigned. Its intersection with a line in any direction is the one or two common points, and empty when the line misses it (a line within 1e-6 in squared half chord of touching may count as either); with a ray or a segment it is exactly those of them that lie ahead of the ray's origin or on the segment (end points included).",
     ["inputs"], "all circles with centre up to 1e3 and radius up to 200, all lines (axis-parallel, steep, flat, scaled coefficients), rays and segments; tangency within the documented 1e-6 discriminant tolerance",
     "Tests use one circle at the origin and horizontal lines only: the general-slope branch is never executed by a line test.",
     ["circle_2d.py"], [("intersection(Line2D/Ray2D/Segment2D)", "circle_2d.py"), ("quadratic_f", "circle_2d.py"), ("contains/area", "circle_2d.py")])

prop("C13", "Circle-circle intersections and circles through three points are exact",
     "Two circles that clearly cross (half chord above 0.002) yield exactly the two points lying on both, wherever their centres lie, tangent circles one, and separate, nested or identical circles none, symmetrically in the two circles. The circle through three non-collinear points passes through all three, and a point is reported inside it exactly when it is strictly closer to the centre than the radius; collinear or coincident points (doubled area below 1e-10) give a zero circle at the origin that contains nothing. The quadratic solver returns the real roots (a double root twice, as for a discriminant below 1e-6 in magnitude) and none when there are none.",
     ["inputs"], "all pairs of circles, all triples of points (including collinear and coincident ones) and query points away from the rim by more than rounding",
     "Three circle pairs with centres on the x axis and one right triangle are tested.",
     ["circle_2d.py", "triangle_2d.py"], [("intersection(Circle2D)", "circle_2d.py"), ("circum_circle/circum_circle_contains", "circle_2d.py"), ("quadratic_f", "circle_2d.py")])

prop("C14", "Triangle area, orientation, membership and validity are exact",
     "The signed area is positive for counterclockwise, negative for clockwise and zero for collinear vertices, the area is its magnitude, and the orientation test agrees with its sign, in every construction form and after reassignment. A non-degenerate triangle contains exactly the points of the closed region for either orientation, and the static forms agree with the methods. A triangle is valid exactly when its vertices are valid and pairwise different.",
     ["inputs", "histories"], "all vertex triples and query points on an integer or dyadic grid (exact), and floating-point ones away from the boundary",
     "There is no test file for triangles.",
     ["triangle_2d.py"], [("double_signed_area_st/contains/tri_contains/is_valid", "triangle_2d.py")])

prop("C15", "Triangle centres satisfy their defining equations",
     "For every non-degenerate triangle, however small (doubled area above 1e-9, sides above 1e-5), the centroid is the mean of the vertices, the incentre is inside and equidistant from the three sides, the circumcentre is equidistant from the three vertices and the orthocentre lies on all three altitudes. They do not depend on the order of the vertices. Collinear or coincident vertices give an invalid circumcentre.",
     ["inputs"], "all triangles up to 1e3 whose double area is at least 1e-3 of the squared longest side, in all vertex orders, and all degenerate triples",
     "There is no test file for triangles; the circumcentre is exercised by one right triangle.",
     ["triangle_2d.py", "line_2d.py", "angle_deg.py"], [("tri_centroid/tri_incenter/tri_circumcenter/tri_orthocenter", "triangle_2d.py")])

prop("C16", "Triangle boundary intersections with lines, rays and segments are complete",
     "The intersection of a triangle with a line reports the number of distinct points (0, 1 or 2) in which the line meets its boundary, followed by those points; a line along an edge reports the two end points of that edge. For a ray or a segment it reports exactly those points lying ahead of the ray's origin or on the segment.",
     ["inputs"], "all non-degenerate triangles and lines, rays and segments in general and special position (through vertices, along edges, touching, missing)",
     "There is no test file for triangles; this code is never executed by the suite.",
     ["triangle_2d.py", "segment_2d.py"], [("intersection", "triangle_2d.py:intersection")])

prop("C17", "Rectangles and sizes keep their geometry through any history of edits",
     "Every construction and reassignment form (corner and lengths, corner and size, two opposite corners in any order, another rectangle, centre and lengths) gives the rectangle described, with non-negative size. Over any history of edits, moving a side, corner or centre puts it where asked and keeps the size, setting a side or corner puts it where asked and keeps the opposite one (swapping roles when they cross), and resizing keeps the top-left corner. All readings (sides, min/max, corners, centre, size, area, validity, edge lines) always describe the same rectangle, and lengths of a size are never negative.",
     ["inputs", "histories"], "all histories of up to 15 edits with arguments up to 1e4 of any sign, from every construction form",
     "There is no test file for rectangles or sizes.",
     ["rect_2d.py", "size_2d.py"], [("constructors, assign, move_*, set_*", "rect_2d.py"), ("fabs normalisation", "size_2d.py")])

prop("C18", "Rectangle membership, intersection and union are the set operations",
     "A rectangle contains exactly the points between its sides inclusive, and almost-contains exactly those within the given threshold of that range. The intersection of two rectangles with positive area is the rectangle of their common points, or an empty rectangle (zero area, not valid) when they share no area; the union is the smallest rectangle covering both. Neither changes the argument, and both are commutative.",
     ["inputs"], "all pairs of rectangles (disjoint, touching, nested, overlapping, empty) and all points, boundary points included",
     "There is no test file for rectangles.",
     ["rect_2d.py"], [("contains/contains_almost/intersected/united", "rect_2d.py")])

prop("C19", "Rectangle boundary intersections with lines, rays and segments are complete",
     "The intersection of a rectangle with a line lists each distinct point in which the line meets its boundary exactly once (none, one corner touched, or two; the corners for a line along a side). For a ray or a segment it lists exactly those points lying ahead of the ray's origin or on the segment.",
     ["inputs"], "all rectangles of positive area and lines, rays and segments in general and special position (through corners, along sides, diagonal, missing)",
     "There is no test file for rectangles.",
     ["rect_2d.py", "line_2d.py"], [("intersection", "rect_2d.py:intersection")])

prop("C20", "Sectors are annular wedges: radii, membership, area and arc lengths agree",
     "A sector keeps its centre, inner radius (at least 0), outer radius (at least the inner) and start and end angles, whether constructed or reassigned. It contains exactly the points whose distance from the centre lies between the radii inclusive and whose direction lies in the turn from start to end in increasing degrees, and its area and inner and outer arc lengths are those of that wedge.",
     ["inputs"], "all centres, radii (any sign and order), angle pairs (including wrap-around and reflex sweeps) and points",
     "There is no test file for sectors.",
     ["sector_2d.py", "angle_deg.py"], [("constructor/assign", "sector_2d.py"), ("contains/area/get_circumference_*", "sector_2d.py")])

prop("C21", "Polygon measures are exact and survive any history of vertex edits",
     "Over any history of construction, assignment, appending and clearing, a polygon's vertices are exactly those given, in order. Its doubled signed area is the exact shoelace sum (positive counterclockwise, zero below three vertices), area is half its magnitude, the orientation tests agree with its sign, and the bounding box and its centre are those of the vertices. Reversing the vertices negates the signed area, and rotating the start vertex or translating the polygon does not change it.",
     ["inputs", "histories"], "all vertex lists of 0 to 40 points, simple or self-intersecting, with repeated points, and all edit histories",
     "Tests use five fixed polygons.",
     ["polygon_2d.py"], [("double_signed_area/area/get_bounding_box/assign/add_vertex/clear", "polygon_2d.py")])

prop("C22", "Polygon membership follows the even-odd rule and distance agrees with it",
     "A polygon contains a point not on its outline exactly when a ray from the point crosses the outline an odd number of times, whatever the shape, orientation, start vertex or repeated vertices; a point on the outline is contained exactly when outline points are allowed. The distance to a point is zero for contained points when the polygon counts as a plane, and otherwise (or as a polyline) the minimum distance to its edges, with one- and two-vertex polygons acting as a point and a segment.",
     ["inputs"], "all vertex lists of 1 to 25 grid points (convex, concave, self-intersecting, with collinear and repeated vertices) and query points on vertices, edges, level with vertices, inside and outside; floating-point polygons with points off the outline",
     "Five query points on one convex polygon are tested; a point in the middle of an edge is never tested.",
     ["polygon_2d.py", "segment_2d.py"], [("contains", "polygon_2d.py:contains"), ("dist", "polygon_2d.py:dist")])

prop("C23", "Clipping a polygon by a rectangle yields the part inside the rectangle",
     "The polygon clipped by a rectangle lies within the rectangle, contains an interior point of the rectangle exactly when the original polygon does, and has the signed area of the common part; clipping by a rectangle that covers the polygon keeps it, and clipping leaves the original polygon unchanged.",
     ["inputs"], "all simple convex and concave polygons and rectangles with grid or floating-point coordinates (edges not shorter than 1e-2)",
     "The one clipping test pins an output that lies outside both the polygon and the expected region (see DESIGN.md, known finding).",
     ["polygon_2d.py", "rect_2d.py", "line_2d.py"], [("get_rectangle_clipped_polygon/get_line_clipped_polygon", "polygon_2d.py")])

prop("C24", "Both hull methods return exactly the extreme points, counterclockwise",
     "For any input points not all on one line, the wrapping method and the Graham scan each give as vertices exactly the extreme points of the input, each once, in counterclockwise order, and as edges the segments joining consecutive vertices cyclically; the polygon made from the hull has those vertices and contains every input point. The result does not depend on input order or duplicates, adding points and recomputing equals computing on the whole set, and fewer than three points give no hull. Computing never loses or alters input points, nor changes the caller's list. The module's orientation helper calls three points whose doubled area is above 1e-6 in magnitude clockwise exactly when they turn right.",
     ["inputs", "histories"], "all point multisets of 0 to 40 grid or floating-point points with duplicates and collinear runs; histories of adding, computing by either method, clearing",
     "Three fixed point sets without collinear boundary points are tested for wrapping; the Graham test on the third set is commented out; edges are never checked.",
     ["convex_hull.py", "polygon_2d.py"], [("compute_wrapping_method/compute_graham_scan", "convex_hull.py"), ("get_min_point_index/is_clockwise", "convex_hull.py")])

prop("C25", "Affine transforms obey the laws of matrix algebra over any history",
     "Transforming a point applies x' = m11 x + m12 y + dx, y' = m21 x + m22 y + dy in every form (vector, coordinate pair, product, in place); a product transforms like applying its right factor first, and neither factor is changed by taking a product. In-place translate, scale, rotate and multiply equal multiplication by the corresponding elementary transform on the documented side, over any history including reset and reassignment. The inverse of an invertible transform undoes it on both sides, a singular one inverts to the identity, and the determinant is multiplicative.",
     ["inputs", "histories"], "all transforms with coefficients up to 1e3, histories of up to 12 operations, all points up to 1e4",
     "The only product tested is identity times identity; in-place operations are untested.",
     ["matrix_2d.py"], [("transform/__mul__/__imul__/translate/scale/rotate/inverted/make_*", "matrix_2d.py")])

prop("C26", "Inertial motion predictions equal the step-by-step simulation",
     "Travel, point and distance predicted after n steps of pure inertia equal summing n steps of a velocity that decays by the given factor (other than 1) each step, and their final forms equal the limit of that sum. The length and first term computed for a geometric series reproduce the series from the other values, and impossible series are reported as -1 (0 for an empty sum). Inputs are not modified.",
     ["inputs"], "all velocities up to 1e3, n from 0 to 400, decay in (0, 1), all geometric series with positive terms and ratio different from 1",
     "There is no test file for the soccer math.",
     ["soccer_math.py"], [("inertia_*", "soccer_math.py"), ("calc_length_geom_series/calc_first_term_geom_series", "soccer_math.py")])

prop("C27", "Quantisation rounds to the nearest step and its inverse bounds the input",
     "Rounding gives an integer at distance at most one half; quantising gives the multiple of the step nearest to the value and is idempotent and monotone. Distance quantisation gives a multiple of 0.1, monotone in the distance. The inverse bounds enclose every value that quantises to the given one, and the error of a seen distance (0.1 or more) is at least the difference of any two distances seen as that value.",
     ["inputs"], "all values up to 1e9, all positive steps, all distances up to 200 and quantisation steps from 0.001 to 1",
     "There is no test file for the soccer math.",
     ["soccer_math.py"], [("r_int/quantize/quantize_dist/unquantize_min/unquantize_max/unquantize_error", "soccer_math.py")])

prop("C28", "Soccer command models and numeric helpers follow their formulas",
     "Kick rate falls linearly by a quarter over 180 degrees of direction and by a quarter over the kickable margin; dash direction rate interpolates linearly from 1 ahead to the side rate at 90 and the back rate at 180 degrees, symmetrically; the effective turn divides by one plus inertia times speed; final speed is the fixed point of dashing with decay, and the speed limit can be exceeded exactly when it is greater than the limit. Wind acceleration is the wind force vector in the wind direction scaled by speed over the weights, and the wind error is that times the wind randomness. Clamping returns the number bounded to the interval, and the float range yields start plus every whole multiple of the step that stays short of stop, in either direction.",
     ["inputs"], "all server-plausible parameters (weights and margins positive, decay below 1), all directions in [-180, 180], all intervals, ranges with nonzero step",
     "There is no test file for the soccer math.",
     ["soccer_math.py"], [("kick_rate/dir_rate/effective_turn/final_speed/can_over_speed_max/wind_effect/bound/min_max/f_range", "soccer_math.py")])

prop("C29", "Queries are pure, and shapes never share state with their inputs or results",
     "No query (measure, predicate, intersection, copy, rendering) changes its receiver or its arguments, and asking the same question again gives the same answer. A shape built, reassigned or extended from points, sizes, angles or lists keeps its values when the caller later changes those objects, and changing a value returned by a query (other than the documented by-reference accessors, whose results are the live parts) does not change the shape.",
     ["inputs", "histories"], "all shapes of every class, every query, every order of query and mutation of inputs and results",
     "Three copy tests check one mutation each; no test looks at operands after a query.",
     ["vector_2d.py", "segment_2d.py", "ray_2d.py", "circle_2d.py", "rect_2d.py", "sector_2d.py", "triangle_2d.py", "polygon_2d.py", "convex_hull.py", "matrix_2d.py", "line_2d.py"],
     [("copies in constructors and accessors", "all classes")])

prop("C30", "Answers are invariant under rigid motions, scaling and equivalent descriptions",
     "Moving all objects of a question by the same translation, quarter turn, reflection or scaling moves the answer accordingly: lengths, distances and areas scale, predicates stay the same, and intersection points, centres, projections and hulls move along, for every shape. Describing the same shape differently (swapped end points, reordered triangle vertices, rotated or reversed polygon vertices, scaled line coefficients, a rectangle as a polygon, a triangle as a three-vertex polygon) does not change the answers.",
     ["inputs"], "all shapes on a grid, all translations by grid vectors, quarter turns, reflections and power-of-two scalings",
     "Tests place nearly all shapes around the origin in one orientation and never compare two descriptions of one shape.",
     ["segment_2d.py", "circle_2d.py", "triangle_2d.py", "polygon_2d.py", "rect_2d.py", "line_2d.py", "ray_2d.py", "convex_hull.py"],
     [("coordinate-free formulas", "all shape classes")])

prop("C31", "Text renderings carry the actual values of a shape",
     "The string form of a point, angle, line, ray, segment, circle, triangle, rectangle, size, sector, polygon, hull or transform contains its defining numbers, in order, at full precision. The drawing text of a circle, triangle, segment or rectangle is the given text followed by a parenthesised record with the shape's keyword and its defining numbers rounded to three decimals.",
     ["inputs"], "all shapes with finite coordinates, all prefix texts without parentheses",
     "No rendering is tested.",
     ["vector_2d.py", "angle_deg.py", "line_2d.py", "ray_2d.py", "segment_2d.py", "circle_2d.py", "triangle_2d.py", "rect_2d.py", "size_2d.py", "sector_2d.py", "polygon_2d.py", "convex_hull.py", "matrix_2d.py"],
     [("__repr__ / to_str", "all classes")])

prop("C32", "Answers depend only on the values asked about, never on what was done before",
     "Every question to every class and every plain function of the package has the same answer after any history of constructions, in-place changes (mutators and changes of live parts obtained from the by-reference accessors), earlier questions and calls of other functions as in a freshly started program that builds the objects anew with their current values. Nor does it matter whether an argument is the receiver itself, one of its live parts, or an equal separate object. Nothing the package remembers between calls (per object, per class or per module) may show: no stale derived values after an edit, no mixing up of nearly equal inputs, no default or constant that earlier calls can change.",
     ["inputs", "histories"], "all histories of edits and questions on all classes, with repeated, equal and nearly equal values, and all functions of the soccer math",
     "A test asks each question once or twice on a new object; remembered state shows only in longer histories.",
     ["vector_2d.py", "angle_deg.py", "line_2d.py", "ray_2d.py", "segment_2d.py", "circle_2d.py", "triangle_2d.py", "rect_2d.py", "size_2d.py", "sector_2d.py", "polygon_2d.py", "convex_hull.py", "matrix_2d.py", "soccer_math.py"],
     [("no caches: derived values are computed from the current parts on each call", "all classes")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
