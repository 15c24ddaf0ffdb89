#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
M = "crates/mapping-algorithms/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[M + f if not f.startswith("/") else f[1:] for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

KD = "kd_tree/mod.rs"
prop("K01", "KD-tree insertion stores each distinct point exactly once",
 "Inserting a point (no NaN coordinate) that the KD-tree does not hold adds exactly that point and keeps every stored point; inserting a point equal to a stored one changes nothing. The reported length always equals the number of stored points, the tree is reported empty exactly when it stores none, and building a tree from a slice is the same as inserting the slice's points one by one in order.",
 ["inputs", "histories"], "every sequence of insertions of non-NaN points, every scalar type and dimension",
 "Tests insert at most seven distinct points and one duplicate of a leaf root; which branch is taken and whether a link is overwritten depends on the whole insertion history.",
 [KD], [("leaf insertion with duplicate detection", "KDNode::insert"), ("element counter", "KDTree::insert"), ("fold of inserts", "KDTree::from")],
 [("element_count", "number of stored points", KD), ("left/right", "children of a node", KD)], ["KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"])
prop("K02", "KD-tree nearest-neighbour search is exact",
 "For every tree built by insertions and every query point (no NaN coordinate), the nearest search returns a stored point whose squared Euclidean distance to the query is minimal among all stored points. It returns nothing exactly when the tree is empty.",
 ["inputs", "histories"], "every insertion history and every query point",
 "The tests query twelve points in one eleven-point tree; a wrong pruning bound, branch side or axis only shows for particular splits.",
 [KD, "utils/mod.rs"], [("descend near side, prune far side by axis distance", "KDNode::nearest"), ("branch side on insertion", "KDNode::insert"), ("squared distance", "distance_squared")],
 None, ["KDTree::nearest"])
prop("K03", "KD-tree traversal visits every stored point exactly once",
 "Traversing a KD-tree, read-only or mutable, calls the given function exactly once for every stored point and for nothing else, and the mutable form stores back whatever the function wrote. Traversal of an empty tree calls nothing, and neither form changes the tree's shape or its reported length.",
 ["inputs", "histories"], "every tree shape and every visitor",
 "Tests traverse one four-point tree and check a sum; a skipped or doubled subtree of a different shape is not seen.",
 [KD], [("recursive visit of left, self, right", "KDNode::traverse_branch / traverse_branch_mut"), ("root dispatch", "KDTree::traverse_tree / traverse_tree_mut")], None, ["KDTree::traverse_tree", "KDTree::traverse_tree_mut"])
prop("N01", "Brute-force nearest neighbour is exact",
 "The brute-force search over a slice returns nothing exactly when the slice is empty, and otherwise returns an element of the slice whose squared Euclidean distance to the query is minimal among all elements. All elements of the slice are considered.",
 ["inputs"], "every slice length, dimension and point values without NaN",
 "One test with four points where the answer is in the middle; first/last element, ties and far points are not sampled.",
 ["point_clouds/nearest_neighbour.rs", "utils/mod.rs"], [("linear scan keeping the best distance and point", "find_nearest_neighbour_naive"), ("squared distance", "distance_squared")], None, ["find_nearest_neighbour_naive"])
prop("C01", "Point-cloud centroid is the coordinate-wise mean",
 "The centroid of a non-empty point cloud is, in every dimension, the sum of all points' coordinates divided by the number of points; the centroid of an empty cloud is the origin.",
 ["inputs"], "every cloud size, dimension and values (real arithmetic)",
 "Tests use two small clouds.",
 ["point_clouds/mod.rs"], [("fold and divide", "calculate_point_cloud_center")], None, ["calculate_point_cloud_center"])
prop("C02", "Transforming a cloud maps every point, in order",
 "Transforming a point cloud by an isometry returns a cloud of the same length in which the i-th point is the isometry applied (rotation then translation) to the i-th input point. The input cloud is left unmodified.",
 ["inputs"], "every cloud and isometry", "There is no direct test; it is only used to make other tests' inputs.",
 ["point_clouds/mod.rs"], [("map transform_point", "transform_point_cloud")], None, ["transform_point_cloud"])
prop("C03", "Generated clouds have the requested size, ranges and are reproducible",
 "Generating a point cloud returns exactly the requested number of points, every coordinate being a fresh draw from the range given for that same dimension. Two calls with the same arguments return the same cloud, in every process.",
 ["inputs", "histories"], "every count, dimension and set of ranges", "No direct test.",
 ["point_clouds/mod.rs"], [("fixed-seed generator, one draw per coordinate from its own range", "generate_point_cloud")], None, ["generate_point_cloud"])
prop("L01", "Lexicographic sorting orders and permutes, all variants alike",
 "For clouds without NaN, each sorting function yields the input's points, each exactly once, in ascending lexicographic order (first coordinate most significant, then the next, through the last). The in-place, copying and by-reference variants yield the same sequence, and only the in-place variant changes its input.",
 ["inputs"], "every cloud without NaN in every dimension", "Tests sort three-point clouds; the by-reference variant is never tested.",
 ["point_clouds/lex_sort.rs"], [("comparator folding coordinates in order", "lex_sort_func"), ("standard library sort", "lex_sort / lex_sort_in_place / lex_sort_ref")], None, ["lex_sort", "lex_sort_in_place", "lex_sort_ref"])
prop("L02", "Sorting refuses NaN and zero-dimensional clouds untouched",
 "Every sorting function reports failure exactly when the dimension is zero or any coordinate of any point is NaN. On failure the input is left unmodified, and no comparison of a NaN coordinate is ever attempted, so sorting does not panic.",
 ["inputs"], "every cloud, NaN at any position", "Tests place one NaN in the last coordinate of the last point, in two of the three variants.",
 ["point_clouds/lex_sort.rs", "types/is_nan.rs"], [("validation before sorting", "validate_input")], None, ["lex_sort", "lex_sort_in_place", "lex_sort_ref"])
prop("D01", "Down-sampling assigns each point to its floor voxel, once",
 "In voxel down-sampling, every input point contributes to exactly one voxel: the one whose index in each dimension is the floor of that dimension's coordinate divided by the voxel size. Two points contribute to the same voxel exactly when these indices agree in every dimension.",
 ["inputs"], "every cloud, voxel size and dimension, including negative coordinates", "One seven-point test with one voxel size.",
 ["point_clouds/downsample.rs"], [("floor-divide key per dimension, map of groups", "downsample_point_cloud_voxel")], None, ["downsample_point_cloud_voxel"])
prop("D02", "Down-sampling returns one exact centroid per occupied voxel",
 "Voxel down-sampling returns exactly one point per occupied voxel, and that point is in every dimension the mean of all the points assigned to the voxel: their coordinate sum divided by their number.",
 ["inputs"], "every cloud, voxel size and dimension (real arithmetic)", "One test with voxels of at most two points.",
 ["point_clouds/downsample.rs"], [("sum and divide per group", "downsample_point_cloud_voxel")], None, ["downsample_point_cloud_voxel"])
I = "point_clouds/icp/mod.rs"; IH = "point_clouds/icp/helpers.rs"; IT = "point_clouds/icp/types.rs"
prop("I01", "ICP rejects every invalid input with its dedicated error",
 "Registration is refused before any iteration, each with its own error, when the source cloud is empty, the target cloud is empty, the iteration limit is zero, the interval threshold is NaN or not above machine epsilon, or an absolute threshold is set that is NaN or not above machine epsilon. Any other input is accepted for iteration.",
 ["inputs", "configurations"], "every combination of clouds and configuration values", "Tests try one value per error; NaN, negative and epsilon-sized thresholds are not tried.",
 [I], [("guard sequence", "icp")], None, ["icp"])
prop("I02", "ICP declares convergence only on its two criteria",
 "An iteration reports convergence exactly when the newly measured error is below the configured absolute threshold (if one is set) or differs in absolute value from the previous iteration's error by less than the interval threshold. Otherwise it reports non-convergence and remembers the new error for the next comparison.",
 ["inputs", "histories"], "every cloud pair, configuration and iteration history", "Tests only look at final success; which criterion fired, and with which operands, is not observed.",
 [I], [("threshold comparison and update of the remembered error", "icp_iteration")], [("current_mse", "error of the previous iteration", I)], ["icp_iteration"])
prop("I03", "ICP runs at most the allowed iterations and reports them truthfully",
 "Registration performs at most the configured number of iterations, stops at the first one that converges, and on success returns that iteration's error, its zero-based number and the transform accumulated up to and including it. If none converges it fails with the did-not-converge error.",
 ["inputs", "configurations", "histories"], "every iteration limit and every convergence history", "Tests check success and an error bound, never the iteration number or which error is returned.",
 [I], [("bounded loop with early return", "icp")], None, ["icp"])
prop("I04", "ICP matches each source point to its nearest target point",
 "Each iteration pairs every currently transformed source point, in order, with its nearest point of the target cloud, using the KD-tree when one is supplied and the brute-force search otherwise; the KD-tree used by the full registration is built from the whole target cloud exactly when the configuration enables it. If a point has no neighbour the iteration fails with the no-nearest-neighbour error.",
 ["inputs", "configurations"], "every cloud pair with and without KD-tree", "Tests run both modes on one cloud and compare only the final error.",
 [I], [("nearest search with fallback", "icp_iteration"), ("tree construction", "icp")], None, ["icp_iteration", "icp"])
prop("I05", "ICP estimates the step from centred correspondences as a proper rotation",
 "Each iteration's update is the rigid motion built from the correspondences: the cross-covariance of the two centred point sets is decomposed by SVD into U and V-transposed, the rotation is U*V-transposed with U's last column negated exactly when the determinant is negative, and the translation is the matched centroid minus the rotated source centroid. The new transform is this motion composed after the old one, identically in 2D and 3D.",
 ["inputs"], "every pair of matched clouds, both dimensions (real arithmetic)", "Tests check one 3x3 covariance and one 2x2 sign flip; reflections in 3D, composition order and translation formula are unobserved.",
 [IH, "types/isometry.rs", "utils/mod.rs"], [("cross-covariance", "get_rotation_matrix_and_centroids / outer_product"), ("SVD update", "update_transform (2D and 3D)"), ("reflection fix", "verify_rotation_matrix_determinant")], None, ["icp_iteration"])
prop("I06", "ICP keeps transform, transformed cloud and reported error consistent",
 "After every iteration the transformed cloud equals the accumulated transform applied to the original source cloud, point by point, and the error of the iteration is the sum over all pairs of the squared distance between that transformed point and the target point it was matched with. Registration starts from the identity transform, the untransformed source cloud and the largest possible error.",
 ["inputs", "histories"], "every cloud pair and number of iterations", "Tests never inspect the transformed cloud or recompute the error.",
 [I, IH], [("re-transform from the original cloud", "icp_iteration"), ("sum of squared distances", "calculate_mse"), ("initial state", "icp")], None, ["icp_iteration", "icp"])
prop("I07", "ICP configuration builder changes only the named setting",
 "Each builder method returns a builder that has the given value for its own setting and the previous values for all the others, leaving the original builder untouched; building returns exactly the settings held. The defaults are no KD-tree, 20 iterations, no absolute threshold and an interval threshold of 0.01.",
 ["inputs", "configurations", "histories"], "every sequence of builder calls and values", "Tests never read a configuration back.",
 [IT], [("struct update per setter", "ICPConfigurationBuilder::with_*"), ("clone on build", "ICPConfigurationBuilder::build"), ("defaults", "ICPConfiguration::builder")], None, ["ICPConfigurationBuilder"])
H = "polygons/graham_scan.rs"; J = "polygons/jarvis_march.rs"
prop("H01", "Convex hulls consist of input points and have at least three vertices",
 "Both hull functions return nothing for fewer than three points, and otherwise either nothing or a hull of at least three vertices. Every returned vertex is one of the input points, or, when a voxel size is given, one of the down-sampled points.",
 ["inputs", "configurations"], "every cloud, sortedness flag and voxel size", "Tests compare a handful of fixed hulls, never with a voxel size or pre-sorted input.",
 [H, J], [("hull of references into the (down-sampled, sorted) cloud", "graham_scan"), ("hull of copied vertices", "jarvis_march")], None, ["graham_scan", "jarvis_march"])
prop("H02", "The monotone-chain hull keeps only strict turns, over both chains",
 "The Graham-scan hull is the ascending chain followed by the descending chain over the same sorted points, each without its last point, where a chain is built by dropping its last point while the last two points and the next one fail to make a strict right (clockwise) turn. It returns nothing exactly when the two chains together have at most two vertices.",
 ["inputs"], "every cloud (real arithmetic)", "Tests use eight fixed clouds of mostly five points.",
 [H, "polygons/mod.rs"], [("pop while not a right turn", "build_hull_segment"), ("orientation", "calculate_determinant"), ("two passes and join", "graham_scan")], None, ["graham_scan"])
prop("H03", "The hull scan only ever runs on lexicographically sorted points",
 "Whatever the sortedness flag and voxel size, the chain construction of the Graham scan runs over lexicographically sorted points: the input is used as given only if the caller says it is sorted and no down-sampling reorders it. Consequently the hull does not depend on the order of the input points unless the caller claims they are sorted.",
 ["inputs", "configurations"], "every combination of sortedness flag, voxel size and cloud", "All tests pass unsorted input without voxel size.",
 [H, "point_clouds/lex_sort.rs"], [("sort/down-sample dispatch", "graham_scan")], None, ["graham_scan"])
prop("H04", "The gift-wrapping hull starts at an extreme point and wraps outermost points",
 "The Jarvis-march hull starts at the lexicographically smallest point and from each vertex goes to a point such that no other candidate lies strictly on the outer (left) side of that edge, until it is back at its start. It considers every point of the (down-sampled) cloud at every step. A march that comes back to its start with three vertices or more is the hull returned, it is not given up.",
 ["inputs"], "every cloud (real arithmetic)", "Tests use eight fixed clouds in one order each.",
 [J, "polygons/mod.rs"], [("lexicographic minimum", "jarvis_march"), ("outermost candidate selection", "jarvis_march"), ("orientation", "calculate_determinant")], None, ["jarvis_march"])
prop("H05", "Gift wrapping never marches backwards and always ends",
 "The Jarvis march ends for every finite input without NaN, including collinear and duplicated points in any order: it never leaves a vertex backwards along the edge it arrived by, and it cannot emit more vertices than there are points. If all points are collinear it returns nothing.",
 ["inputs"], "every cloud, in every order, with duplicates and collinear runs", "The only collinear test happens to list the points in ascending order; other orders looped forever.",
 [J], [("candidate selection and closing test", "jarvis_march")], None, ["jarvis_march"])
prop("H06", "Hull arithmetic cannot overflow the coordinate type",
 "For every supported point type, including small and unsigned integers, hull computation does its arithmetic on coordinates in the floating-point calculation type and never in the point type. No subtraction, product or sum of coordinates can therefore wrap, panic or lose the sign of a turn.",
 ["inputs", "configurations"], "every pregenerated point type and every coordinate value", "Tests only use floating-point points.",
 [H, J, "polygons/mod.rs", "point_clouds/downsample.rs"], [("orientation determinant", "calculate_determinant"), ("voxel mean", "downsample_point_cloud_voxel")], None, ["graham_scan", "jarvis_march"])
prop("X01", "Polygon extents are the exact per-dimension bounds",
 "The extents of a polygon with at least three vertices are, for every dimension separately, the closed range from the smallest to the largest coordinate among all its vertices. For fewer than three vertices there are no extents.",
 ["inputs"], "every polygon without NaN, every dimension", "One square and one empty polygon.",
 ["polygons/mod.rs"], [("min/max accumulation", "calculate_polygon_extents")], None, ["calculate_polygon_extents"])
PIP = "polygons/point_in_polygon.rs"
prop("E01", "Point-in-polygon counts each edge of the closed ring exactly once",
 "A point is inside a polygon exactly when an odd number of its edges are hit, the edges being every consecutive pair of vertices including the one from the last vertex back to the first, each examined once. Hence the answer does not depend on which vertex the ring starts at, and an empty polygon contains nothing.",
 ["inputs"], "every polygon and point", "One polygon, two points.",
 [PIP], [("edge enumeration modulo length and parity", "is_single_point_in_polygon")], None, ["is_single_point_in_polygon"])
prop("E02", "The edge hit test is half-open in y, direction-free, and exact in x",
 "A ray hits an edge exactly when the point's y is above the lower end and not above the upper end of the edge (so a shared vertex is counted for one side only, and horizontal edges never) and the point's x is not beyond the edge's crossing at that y. Swapping the edge's two ends never changes the answer.",
 ["inputs"], "every point and edge without NaN (real arithmetic)", "Two hand-picked edges.",
 [PIP], [("ray/segment test", "does_ray_intersect_polygon_segment")], None, ["is_single_point_in_polygon"])
prop("E03", "The batch point-in-polygon answer equals the single-point answer",
 "For a polygon with at least three vertices the batch test returns one boolean per given point, in order, equal to what the single-point test answers for that point; a point is answered without the full test only if it lies strictly outside the polygon's bounds. For fewer than three vertices it returns nothing.",
 ["inputs"], "every polygon and list of points", "Two points on one polygon (the clockwise and counter-clockwise tests are identical).",
 [PIP, "polygons/mod.rs"], [("bounds pre-filter then single test", "are_multiple_points_in_polygon")], None, ["are_multiple_points_in_polygon"])
B = "lines/bresenham.rs"
prop("B01", "A plotted line runs from start to end in unit steps of its longest axis",
 "The plotted line ends with the end point; every point before it advances by exactly one unit towards the end along the axis with the largest extent, beginning with the start point itself, and one such point is emitted for every whole unit of that extent. On the other axes consecutive points never move away from the end point's direction, nor by more than one unit.",
 ["inputs"], "every pair of finite points, every dimension and output type (real arithmetic)", "Six hand-picked lines starting at the origin or with sub-unit extents.",
 [B], [("step direction, primary axis, main loop", "plot_bresenham_line")], None, ["plot_bresenham_line"])
prop("B02", "A plotted line stays within one unit of the true line",
 "Every point emitted before the end point deviates from the ideal straight line, measured along any axis at the same progress of the longest axis, by less than one unit before conversion to the output type.",
 ["inputs"], "every pair of finite points and dimension (real arithmetic)", "Six hand-picked lines.",
 [B], [("error accumulator with threshold and carry", "plot_bresenham_line")], None, ["plot_bresenham_line"])
prop("B03", "Line plotting terminates for every finite pair of points",
 "Plotting a line between any two finite points performs a number of steps fixed up front by the whole number of units between them on the longest axis. It does not depend on a floating-point position eventually reaching the end, which at large coordinates it never would.",
 ["inputs"], "every pair of finite points, including magnitudes where adding one is lost to rounding", "Tests stay below 1000 in magnitude.",
 [B], [("main loop condition", "plot_bresenham_line")], None, ["plot_bresenham_line"])
G = "geo/haversine.rs"
prop("G01", "Haversine distance is never NaN and stays within half the circumference",
 "For latitudes between -90 and 90 degrees, any finite longitudes with a finite difference and a non-negative radius, the computed great-circle distance is never NaN or negative and never exceeds pi times the radius (up to rounding), including for identical, polar and exactly antipodal points.",
 ["inputs"], "all coordinates in range, both precisions, with rounding", "One pair of cities.",
 [G], [("haversine with square roots of h and 1-h", "calculate_haversine_distance")], None, ["calculate_haversine_distance"])
prop("G02", "Haversine distance is the haversine formula, symmetric and radius-linear",
 "The distance is twice the radius times the angle whose squared half-sine is sin^2(dlat/2) + cos(lat1)*cos(lat2)*sin^2(dlon/2), with degrees converted to radians. It is therefore unchanged by swapping the points, zero for identical points, and proportional to the radius.",
 ["inputs"], "all pairs of points and radii (real arithmetic)", "One pair of cities at mid latitudes.",
 [G], [("formula", "calculate_haversine_distance")], None, ["calculate_haversine_distance"])
prop("G03", "Initial bearing is normalised to [0, 2*pi)",
 "For all finite coordinates the computed bearing is at least zero and less than two pi.",
 ["inputs"], "all finite coordinates, both precisions, with rounding", "One eastward pair; westward bearings are never tested.",
 [G], [("shift and remainder", "calculate_sphere_bearing")], None, ["calculate_sphere_bearing"])
prop("G04", "Initial bearing is the forward-azimuth formula",
 "The bearing is, modulo a full turn, the two-argument arctangent of sin(dlon)*cos(lat2) and cos(lat1)*sin(lat2) - sin(lat1)*cos(lat2)*cos(dlon), with dlon the second longitude minus the first and degrees converted to radians; so due north is 0 and due east is a quarter turn.",
 ["inputs"], "all pairs of points (real arithmetic)", "One eastward pair.",
 [G], [("formula", "calculate_sphere_bearing")], None, ["calculate_sphere_bearing"])
prop("Y01", "NaN detection is exact for every numeric type",
 "The NaN test is true exactly for NaN on both floating-point types and false for every value of every integer type, and it is available for all twelve primitive integer types and both floats.",
 ["inputs", "configurations"], "every value of every supported type", "A few values per type; 128-bit integers are not tested.",
 ["types/is_nan.rs"], [("per-type implementations", "IsNan impls")], None, ["IsNan"])
prop("A01", "Pregenerated functions are the generic ones at the advertised types",
 "Every pregenerated function does nothing but call the generic algorithm of the same name, with the precision of its module, the point/output type and dimension in its name, and its own arguments unchanged and in order. Both precision modules offer the same functions: registration in 2 and 3 dimensions, both hull functions for every integer and float point type up to 64 bits, the line function in 2 and 3 dimensions for every 32- and 64-bit and pointer-sized output type, both point-in-polygon tests, haversine distance and bearing.",
 ["inputs", "configurations"], "every pregenerated function of every module", "No test calls a pregenerated function.",
 [B, G, H, J, PIP, I], [("macro-generated forwarding functions", "impl_* macros")], None, ["single_precision", "double_precision"])
prop("A02", "The generic algorithms build and are exported under every feature combination",
 "With any combination of the std, pregenerated and tracing features, with or without the standard library, both crates compile and export the same generic algorithms and types, with the same signatures, bounds and methods, and every function computes the same value as with the default features; the pregenerated modules exist exactly when that feature is on, and without std nothing needs the standard library. Only the display of the error is tied to std.",
 ["configurations"], "all eight combinations of the three features", "The tests are only run with all features; turning pregenerated off did not compile.",
 ["lib.rs", B, G, H, J, PIP, I, "/crates/mapping-suites/src/lib.rs", "/crates/mapping-algorithms/Cargo.toml"], [("feature gates", "cfg attributes")], None, ["crate build"])
prop("A03", "Errors and configuration types support the standard idioms they promise",
 "With the standard library enabled, the registration error is a displayable standard error that can be boxed and propagated across threads; every one of its cases has its own non-empty message, which names the cloud or the threshold it is about. Errors are equal exactly when they are the same case with the same payload. Trees, errors and configurations can be cloned and debug-printed, and a clone holds what the original holds.",
 ["programs", "configurations"], "every program that uses these types generically", "No test uses the error as a standard error; the derive was accepted but never applied because the type could not be displayed.",
 [IT, KD], [("thiserror derive", "ICPError"), ("derives", "KDTree, ICPConfiguration")], None, ["ICPError", "KDTree", "ICPConfiguration"])
prop("A04", "Results depend on nothing but the arguments",
 "No function keeps state between calls or reads time, environment, randomness or addresses: generic algorithms are deterministic functions of their arguments. The only permitted exceptions are the order of down-sampled points and draws from the fixed-seed generator of the cloud generator.",
 ["inputs", "histories", "schedules"], "every call history and thread schedule", "Tests call each function once per process.",
 ["lib.rs", "point_clouds/mod.rs", "point_clouds/downsample.rs", H, J], [("no statics, no interior mutability, fixed seed, no unsafe", "whole crate")], None, ["all public functions"])
prop("A05", "Shared data can be queried from many threads, inputs are never mutated",
 "A KD-tree, configuration or result of thread-safe scalars can be sent to and shared between threads, and no query (nearest, length, read-only traversal, batch tests) can modify it. The library contains no unsafe code.",
 ["schedules", "programs"], "every program sharing these values between threads", "No test is concurrent.",
 [KD, IT], [("auto traits, shared-reference receivers", "KDTree, ICPConfiguration, ICPSuccess"), ("no unsafe", "whole crate")], None, ["KDTree", "ICPConfiguration", "ICPSuccess"])
prop("A06", "No public function panics on well-formed finite input",
 "For finite floating-point coordinates, at least one dimension, matching slice lengths and a valid range or voxel size, no public function panics, whatever the number of points (none included) and their order, as long as its result fits in memory: every index and slice range is in bounds, every unwrapped value is present, no count is decremented below zero or incremented past its range, and no remainder is taken by a count of zero.",
 ["inputs"], "every well-formed input of every public function", "Tests cover a few inputs per function; a panic needs a particular length or ordering.",
 [KD, "point_clouds/mod.rs", "point_clouds/downsample.rs", "point_clouds/lex_sort.rs", I, IH, H, J, PIP, "polygons/mod.rs", B, G], [("guards before indexing, unwraps on comparisons of non-NaN values", "all public functions")], None, ["all public functions"])
prop("A07", "Stack use does not grow with the input",
 "No public function recurses to a depth that grows with the number of points it is given or has stored, and neither does dropping or copying a value of a public type: an input of any size that fits in memory can be processed on a thread with an ordinary stack. Recursion over something of bounded size, such as the dimensions, is fine.",
 ["inputs", "histories"], "every input size and order, every insertion history", "Tests use trees of a dozen points; the overflow needs tens of thousands in an unfavourable order.",
 [KD, "point_clouds/mod.rs", H, J, PIP, B], [("recursion over tree nodes", "KDNode::insert, KDNode::nearest, KDNode::traverse_branch"), ("folds and loops instead of recursion", "all other functions")], None, ["all public functions"])
prop("A08", "Every public function returns",
 "Every public function given finite floating-point coordinates comes back after a number of steps bounded by the size of its input, its configured maximum and the number of points it must produce: each loop either runs a number of times fixed before it starts or brings a whole-number quantity closer to a bound in every pass. Whether a loop ends never hinges on floating-point values making progress.",
 ["inputs"], "every input of every public function", "A test that ends says nothing about the inputs it does not use; a loop that never ends does so only for particular coordinates or orders.",
 [H, J, I, B, "point_clouds/mod.rs", "point_clouds/downsample.rs", KD], [("popping until convex", "build_hull_segment"), ("vertex limit", "jarvis_march"), ("iteration limit", "icp"), ("fixed step count", "plot_bresenham_line")], None, ["all public functions"])
# -- behaviours this family cannot decide here
prop("Z01", "ICP recovers the true transform between the clouds",
 "For clouds that differ by a small rigid motion, registration converges to that motion.",
 ["inputs"], "every cloud and sufficiently small motion", "A few sampled motions.", [I], [("iteration", "icp")], None, ["icp"])
prop("Z02", "Hulls are correct under floating-point rounding",
 "Hull functions return the true convex hull even for nearly collinear points whose orientation is lost to rounding.",
 ["inputs"], "every floating-point cloud", "Sampled clouds.", [H, J], [("floating determinant", "calculate_determinant")], None, ["graham_scan", "jarvis_march"])
prop("Z03", "Geographic results are accurate to a stated relative error",
 "Distances and bearings are within a few units in the last place of the exact values.",
 ["inputs"], "every coordinate pair", "One pair.", [G], [("formula", "calculate_haversine_distance")], None, ["calculate_haversine_distance", "calculate_sphere_bearing"])
prop("Z04", "KD-tree search is faster than brute force on large clouds",
 "Nearest search on a balanced tree of n points inspects O(log n) nodes on average.",
 ["inputs", "histories"], "every large cloud", "No performance test.", [KD], [("pruning", "KDNode::nearest")], None, ["KDTree::nearest"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
