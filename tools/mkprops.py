"""Writes /verif/properties.jsonl from the table below (kept as a table so anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NUM="src/numeric/"; GEO="src/geometry/"; KER="src/kernel/"; MSH="src/mesh/"; PRC="src/mesh_processing/"; TRI="src/operations/triangulation/"; IO="src/io/"

p("C01","Exact rational arithmetic is exact in every operator form",
  "For all exact rational scalars a and b, addition, subtraction, multiplication, division, negation and absolute value return exactly the mathematical result, and the by-value, by-reference and assigning forms of one operator agree. Sign tests, ordering, equality and three-way comparison report the exact relation, and a fraction built from a numerator and a denominator denotes that fraction.",
  ["inputs"],"all pairs of rationals, all operator forms and sign/compare entry points",
  "Tests exercise a handful of small values through one or two operator forms; a wrong operand order or operator in a rarely used form never shows.",
  [NUM+"cgar_rational.rs", NUM+"scalar.rs"],
  [("arithmetic operator impls on the exact rational scalar",NUM+"cgar_rational.rs"),("sign, zero tests, cmp_ref, approx_eq, min/max",NUM+"cgar_rational.rs")])
p("C02","A lazy number denotes the exact value of the expression that built it",
  "However a lazily evaluated exact number is built - operators by value, by reference or assigning, constants, conversions - asking for its exact value returns precisely the rational value of that expression over its leaves. Identity simplification, eager folding, depth flattening, caching and sharing of sub-expressions never change that value.",
  ["programs","inputs"],"all expression trees over lazy numbers, all evaluation orders",
  "Tests build shallow expressions; simplification, folding and flattening branches need particular operand states (already evaluated zero/one operands, more than a thousand nested operations).",
  [NUM+"lazy_exact.rs"],
  [("expression constructor with simplification, folding and depth limit",NUM+"lazy_exact.rs"),("memoised exact evaluation",NUM+"lazy_exact.rs"),("operator impls",NUM+"lazy_exact.rs")],
  [("memo cells","cached exact / approximate / enclosure values of one node",NUM+"lazy_exact.rs")])
p("C03","Lazy decisions made from approximations agree with exact evaluation",
  "Sign, zero/positive/negative tests, ordering, three-way comparison, equality, min, max and absolute value on lazy numbers return what exact evaluation of the operands would return, also when they answer from a floating-point enclosure without evaluating exactly. When the enclosure does not settle the question the exact value is consulted.",
  ["inputs","programs"],"all lazy operands, evaluated or not, including nearly equal and cancelling ones",
  "Filter mistakes only show on operands closer than the filter error; tests use well separated values.",
  [NUM+"lazy_exact.rs", NUM+"ball.rs"],
  [("sign filter with exact fallback",NUM+"lazy_exact.rs"),("three-way comparison: pointer equality, disjoint intervals, exact doubles, exact compare",NUM+"lazy_exact.rs"),("certain-sign test of an enclosure",NUM+"ball.rs")])
p("C04","Floating-point enclosures always contain the exact value",
  "For every lazy number the centre-plus-radius enclosure used by the filters contains its exact value, for leaves and through addition, subtraction, multiplication, division and negation, and the reported double interval contains it as well. A divisor enclosure that touches zero yields an unbounded enclosure.",
  ["inputs","programs"],"all operand enclosures and all rounding errors",
  "A missing radius term is invisible unless an input lands within an ulp of the decision boundary.",
  [NUM+"ball.rs",NUM+"lazy_exact.rs",GEO+"util.rs"],
  [("enclosure arithmetic with error-free transforms",NUM+"ball.rs"),("leaf enclosures and double interval",NUM+"lazy_exact.rs"),("next-up/next-down stepping",GEO+"util.rs")])
p("C05","Equal values hash equally and compare consistently",
  "For every scalar kind and for points, vectors, matrices and planes, two values that compare equal produce the same hash, whatever way they were computed or cached. Equality and ordering of compound values examine every component, lexicographically in index order.",
  ["inputs"],"all pairs of equal values, evaluated or not",
  "Hash maps in the tests rarely hold two differently computed equal keys.",
  [NUM+"cgar_f64.rs",NUM+"cgar_rational.rs",NUM+"lazy_exact.rs",GEO+"point.rs",GEO+"vector.rs",GEO+"matrix.rs",GEO+"plane.rs"],
  [("PartialEq/Hash/PartialOrd impls",NUM+"*.rs, "+GEO+"{point,vector,matrix,plane}.rs")])
p("C06","Floating scalar: operator forms agree and tolerant tests are symmetric",
  "For the floating-point scalar every operator form computes the plain double-precision operation, and no value is both positive and negative or both zero and signed. The tolerant sign tests and comparisons use one common tolerance symmetrically: negating the value swaps positive with negative, swapping the operands reverses the ordering, and zero is reported exactly for magnitudes below the tolerance.",
  ["inputs"],"all doubles, all operator forms",
  "Tests stay away from the tolerance boundary.",
  [NUM+"cgar_f64.rs"],
  [("operator impls and Zero/PartialOrd impls of the double scalar",NUM+"cgar_f64.rs")])
p("C07","Conversions between scalar kinds keep the value",
  "Converting integers and finite doubles to any exact scalar kind, and exact scalars to each other, by value or by reference, preserves the value exactly; converting to doubles yields a floating-point approximation of that same value. Zero and one constants are 0 and 1 in every kind, and default values are zero.",
  ["inputs","configurations"],"all values and all pairs of scalar kinds",
  "Most conversion pairs and by-reference forms are never called by the tests.",
  [NUM+"cgar_f64.rs",NUM+"cgar_rational.rs",NUM+"lazy_exact.rs",NUM+"scalar.rs"],
  [("From / FromRef / RefInto / Zero / One / Default impls",NUM+"*.rs")])
p("C08","Vector and point algebra matches its definition in every dimension",
  "Sums, differences, negation, scaling, axpy, dot and cross products, squared norms, interpolation, midpoints, point/vector conversion and translation of points and vectors equal their coordinate-wise definitions in 2D, 3D and (where offered) 4D, in by-value and by-reference forms. A perpendicular returned for a non-zero 3D or 4D vector is orthogonal to it and not zero.",
  ["inputs","configurations"],"all coordinates, all supported dimensions",
  "Tests use axis-aligned inputs for which transposed indices or swapped signs cancel.",
  [GEO+"vector.rs",GEO+"point.rs",GEO+"segment.rs"],
  [("VectorOps / PointOps / Cross impls",GEO+"vector.rs, "+GEO+"point.rs")])
p("C09","Matrix algebra matches its definition",
  "Matrix sum, difference, negation, scaling, transpose, products with matrices and vectors, outer product, interpolation, row/column access, identity and construction from rows or columns equal their textbook definitions for every shape. Determinants equal the Leibniz expansion for sizes up to 4, and an inverse is reported exactly when the determinant is non-zero and multiplies with the matrix to the identity.",
  ["inputs","configurations"],"all entries, shapes up to 4x4 including non-square",
  "There are no tests for most matrix operations and none with asymmetric entries.",
  [GEO+"matrix.rs"],[("matrix operator impls, det, inverse",GEO+"matrix.rs")])
p("C10","A plane through points contains them and canonical form is scale-free",
  "The plane (or 2D line) built from points satisfies normal·p + d = 0 for each defining point, with the normal oriented by the counter-clockwise order of the points; its reported origin lies on it and its basis vectors are orthogonal to the normal. Canonicalising a plane divides normal and offset by one common factor so that the first non-zero normal component is +1.",
  ["inputs"],"all non-degenerate point triples / pairs",
  "Tests look at a few axis-aligned planes.",
  [GEO+"plane.rs"],[("from_points, origin, basis, canonicalized",GEO+"plane.rs")])
p("C11","Orientation and in-circle tests equal the determinant they stand for",
  "Orientation of points in the plane and in space is the signed area/volume determinant - positive for counter-clockwise, negated by swapping two points, zero only for degenerate input up to the documented tolerance - in the generic, planar and kernel entry points alike. The in-circle test is the in-circle determinant: positive exactly when the fourth point lies inside the circle of a counter-clockwise triangle.",
  ["inputs"],"all point tuples, all scalar kinds",
  "Tests use right triangles at the origin where many wrong formulas agree.",
  [KER+"orientation.rs",KER+"predicates.rs",KER+"f64_kernel.rs",KER+"kernel.rs"],
  [("orient, orient2d, incircle, kernel orient2d/orient3d",KER+"{orientation,predicates,f64_kernel}.rs")])
p("C12","Collinearity and on-segment tests accept exactly the points on the segment",
  "A point is reported on a segment only if it is collinear with the end points and lies between them in every coordinate, end points included; the returned parameter is its affine position, 0 at the first and 1 at the second end point. The tolerant variant accepts exactly the points within the given distance of the segment, and coincidence tests compare every coordinate.",
  ["inputs"],"all segments and points, 2D and 3D",
  "Tests check a few axis-aligned segments.",
  [KER+"predicates.rs",GEO+"segment.rs",GEO+"canonical_edge.rs"],
  [("are_equal, are_collinear, is_point_on_segment, point_u_on_segment(_with_tolerance)",KER+"predicates.rs"),("segment parameter and containment",GEO+"segment.rs")])
p("C13","Point-in-triangle classification is exact and exhaustive",
  "A point in the plane of a non-degenerate triangle is classified inside, on an edge, on a vertex or off exactly according to the signs of the three edge functions: off whenever two of them have opposite signs, on a vertex when two vanish, on an edge when one vanishes, inside otherwise. Degenerate triangles contain nothing, and the vertex order of the triangle does not matter.",
  ["inputs"],"all points and triangles, both orientations, 2D and 3D",
  "Points collinear with an edge but beyond it, and clockwise triangles, are not in the tests.",
  [KER+"predicates.rs"],[("point_in_or_on_triangle and its edge-function classification",KER+"predicates.rs")])
p("C14","Barycentric coordinates sum to one and reproduce the point",
  "Barycentric coordinates returned for a point in the plane of a triangle sum to one and recombine the corners to the point; a degenerate triangle yields none. Location queries that interpret vanishing barycentric coordinates name the vertex or edge opposite to them, with the edge parameter measured from the edge's first vertex.",
  ["inputs"],"all triangles and points in their plane, every corner permutation",
  "Tests use symmetric points where permuted coordinates coincide.",
  [GEO+"util.rs",MSH+"topology.rs"],
  [("barycentric_coords",GEO+"util.rs"),("vertex_from_bary_zero, edge_and_u_from_bary_zero, barycentric_coords_on_face, location_on_face",MSH+"topology.rs")])
p("C15","Segment intersection reports a common point exactly when one exists",
  "Two crossing segments in the plane or in space yield their common point, which lies on both; disjoint segments yield nothing, and collinear overlapping segments yield their shared part. The answer does not depend on the order of the end points.",
  ["inputs"],"all pairs of segments, all four end-point orders",
  "Tests cover one crossing, one parallel and one overlapping pair.",
  [GEO+"intersection.rs",GEO+"edge_edge_intersect.rs"],
  [("segment_segment_intersection_2/3",GEO+"intersection.rs")])
p("C16","Ray hits are real: the hit point satisfies the ray and the target",
  "When a ray-triangle test reports a hit, the reported distance is non-negative and the point at that distance along the ray has barycentric coordinates inside the triangle; when it reports none, no such point exists for a non-parallel ray. The same holds for rays against 2D segments and for rays leaving a triangle corner through the opposite edge.",
  ["inputs"],"all rays and targets",
  "Tests shoot one or two rays at axis-aligned triangles.",
  [MSH+"topology.rs"],[("ray_triangle_intersection, ray_segment_intersection_2d, cast_ray_from_vertex_in_triangle(_3)",MSH+"topology.rs")])
p("C17","Bounding boxes bound: union, growth and overlap tests never lose a point",
  "The box of two points, of a point list or of a triangle contains them all, the union of two boxes contains both and is the smallest such box, inflating moves every face outwards by the given amount, and two boxes are reported intersecting exactly when they overlap or touch in every axis. A quick floating-point overlap test may only say 'disjoint' when the exact boxes are disjoint.",
  ["inputs","configurations"],"all boxes in all dimensions",
  "Tests check a few boxes along one axis.",
  [GEO+"aabb.rs",KER+"predicates.rs",MSH+"core.rs"],
  [("from_points, union, intersects, intersects_approx, inflated",GEO+"aabb.rs"),("bbox helpers",KER+"predicates.rs"),("triangle boxes",MSH+"core.rs")])
p("C18","The box tree never misses and never resurrects an entry",
  "A query returns every stored entry whose box intersects the query box, after any sequence of building, inserting, invalidating and compacting; the validity-aware query returns exactly the entries not invalidated. Invalidated entries never come back through insertion or compaction, and pruning only skips subtrees that contain no candidate.",
  ["histories","inputs"],"all sequences of build / insert / invalidate / compact / query",
  "Pruning bookkeeping errors need particular insert/invalidate interleavings.",
  [GEO+"aabb_tree.rs"],
  [("cached outward-rounded bounds and valid counts",GEO+"aabb_tree.rs")],
  [("valid/total counts","number of live entries below a node",GEO+"aabb_tree.rs"),("approximate bounds","outward-rounded box of a subtree",GEO+"aabb_tree.rs")])
p("C19","Flipping an edge keeps the half-edge structure consistent",
  "After a successful edge flip the two affected triangles are the other two triangles of the quadrilateral with the same orientation: next/prev are mutually inverse three-cycles, twins are mutual with opposite end points, every half-edge names its face, and vertex and edge lookups lead to live half-edges for exactly the new edges. A boundary edge, a removed edge, a flip that would duplicate an edge and, in space, a flip that would create a triangle without area is refused.",
  ["inputs","histories"],"all meshes and all interior edges",
  "Tests flip one edge of one small mesh and only look at part of the links.",
  [MSH+"core.rs"],[("flip_edge",MSH+"core.rs")],
  [("half-edge links","next/prev/twin/face/vertex of a half-edge",MSH+"half_edge.rs"),("edge map","directed vertex pair to half-edge",MSH+"basic_types.rs")])
p("C20","Splitting an edge keeps the half-edge structure consistent",
  "Splitting an edge at a point replaces its one or two triangles by two or four triangles that keep the original orientation, with mutually inverse next/prev three-cycles, mutual twins, faces assigned, the old faces and half-edges retired, and lookups updated to exactly the new edges. The reported new faces are those created, and on request the box tree drops the old faces and gains the new ones.",
  ["inputs","histories"],"all meshes, interior and boundary edges",
  "Tests split one interior edge; boundary edges and the box tree are not inspected.",
  [MSH+"core.rs"],[("split_edge",MSH+"core.rs")])
p("C21","Splitting a face keeps the half-edge structure consistent",
  "Inserting a vertex into a face replaces it by exactly three triangles fanning around the vertex with the original orientation, with mutually inverse next/prev three-cycles, mutual twins along the three new edges, unchanged links to the surrounding faces, and the old face retired. Edge lookup contains both directions of the three new edges.",
  ["inputs","histories"],"all meshes and faces",
  "Tests split one face and look at counts.",
  [MSH+"core.rs"],[("split_face",MSH+"core.rs")])
p("C22","Adding a triangle links it consistently or not at all",
  "A triangle is added only when the three directed edges of one of its orientations are free, the given orientation being preferred; its three half-edges then form a next/prev three-cycle around one new face, each is twin to its opposite direction, and the directed-edge lookup maps each edge to it. A triangle that cannot be added leaves faces, half-edges and lookups as they were.",
  ["histories","inputs"],"all meshes and vertex triples, all insertion orders",
  "Tests add triangles in orders where no edge is taken.",
  [MSH+"triangle.rs"],[("add_triangle, add_triangle_no_weld, add_triangles_deferred",MSH+"triangle.rs")])
p("C23","Removing triangles leaves no dangling links",
  "Removing triangles retires exactly those faces, leaves the surviving opposite half-edges as face-less border half-edges, removes lookups only for edges that no longer exist, and re-links borders so that next and prev stay mutually inverse. No live vertex keeps referring to a retired half-edge.",
  ["histories","inputs"],"all meshes and removal sequences",
  "Tests remove one or two faces and check counts.",
  [MSH+"triangle.rs"],[("remove_triangle, remove_triangles_deferred, border rebuild, vertex outgoing repair",MSH+"triangle.rs")])
p("C24","Edge collapse is gated by the topological preconditions",
  "An edge is collapsed only after adjacency, border policy, link condition, duplicate-edge, two-gon and surviving-area checks have all passed; otherwise the reported rejection names the failed check and nothing changes. A performed collapse moves the kept vertex to the chosen position, re-targets the removed vertex's surroundings to it and retires the removed vertex and the faces at the edge.",
  ["inputs","histories"],"all meshes, edges and collapse options",
  "Each test triggers one rejection at most; skipped gates stay unnoticed on tame meshes.",
  [MSH+"edge_collapse.rs",MSH+"topology.rs"],
  [("verify_collapse_prereqs and the collapse begin/commit pair",MSH+"edge_collapse.rs")])
p("C25","A refused mesh edit leaves the mesh untouched",
  "Whenever flipping, collapsing or adding reports failure, no vertex, half-edge, face, lookup or bookkeeping entry of the mesh has been modified. Success is only reported after the edit has been carried out.",
  ["inputs","histories"],"all refused edits on all meshes",
  "Tests compare at most counts after a refusal.",
  [MSH+"core.rs",MSH+"edge_collapse.rs",MSH+"triangle.rs"],
  [("validation before mutation in flip_edge, collapse_edge*, add_triangle*",MSH+"{core,edge_collapse,triangle}.rs")])
p("C26","Vertex insertion finds every mergeable vertex and indexes every new one",
  "Inserting a point returns a live vertex whenever one at an equal position (within the scalar's tolerance) was inserted before, whether it lies in the point's grid cell or any neighbouring cell, and otherwise appends a new vertex at exactly that position; removed vertices and vertices elsewhere are never returned. Every inserted vertex is entered in the grid under the cell of its position, and points in different cells get different grid keys within the supported range.",
  ["inputs","histories"],"all points and insertion orders",
  "Tests merge identical points only, which always share a cell.",
  [MSH+"core.rs",MSH+"spatial_hash.rs"],[("get_or_insert_vertex, add_vertex, grid key packing",MSH+"core.rs, "+MSH+"spatial_hash.rs")],
  [("vertex grid","cell key to vertex indices",MSH+"basic_types.rs")])
p("C27","Mesh validators report every inconsistency they stand for",
  "Validation fails for any mesh in which a live half-edge's next/prev are not mutually inverse, its twin is not mutual, a face loop is not made of its own half-edges, a vertex records a half-edge starting elsewhere, or a directed edge occurs twice, and accepts consistent meshes. Removed half-edges and faces are never reported.",
  ["inputs","histories"],"all mesh states",
  "Tests only call the validators on good meshes.",
  [MSH+"topology.rs"],[("validate_connectivity, validate_half_edges",MSH+"topology.rs")])
p("C28","Neighbourhood queries walk the whole ring in order",
  "Face loops follow next links from the face's half-edge exactly once around; vertex stars, one-rings, incident faces and outgoing half-edges enumerate each incident element once, on closed and open fans alike. Edge lookup returns the half-edge running from the first to the second vertex, and end-point queries return that half-edge's tail and head.",
  ["inputs"],"all meshes, interior and boundary vertices",
  "Tests query a closed fan only.",
  [MSH+"topology.rs"],[("face_half_edges, face_vertices, outgoing_half_edges, vertex_ring_ccw, source/target, half_edge_between, edge_half_edges",MSH+"topology.rs")])
p("C29","Boundary queries report exactly the face-less side",
  "A vertex, edge or half-edge is reported as boundary exactly when a live half-edge without a face is incident to it; boundary maps and loops contain each boundary half-edge once and follow it to the boundary half-edge starting where it ends. Removed elements never contribute.",
  ["inputs","histories"],"all open and closed meshes",
  "Tests check one open mesh.",
  [MSH+"topology.rs",MSH+"core.rs"],[("is_boundary_vertex, boundary_vertices, get_boundary_half_edges, build_boundary_map, build_boundary_loops",MSH+"{topology,core}.rs")])
p("C30","Compaction renumbers every reference",
  "Removing duplicate vertices, unused vertices or retired faces keeps the surviving geometry and connectivity: every half-edge, face, vertex and edge-lookup reference is mapped to the new index of the same element, survivors keep their positions, and nothing refers to a dropped element. Faces and orientation of the surviving mesh are unchanged.",
  ["histories","inputs"],"all meshes and removal patterns",
  "Tests compact meshes with nothing to remove.",
  [MSH+"core.rs"],[("remove_duplicate_vertices, remove_unused_vertices, remove_invalidated_faces",MSH+"core.rs")])
p("C31","Face normals, areas, centroids and planes follow the vertex order",
  "A face's normal is the cross product of its edges in vertex order, its plane contains its corners, its centroid is the mean of its corners, and its area measure is proportional to the squared (3D) or signed-magnitude (2D) edge cross product. Fast variants compute the same quantity from approximations.",
  ["inputs"],"all faces, 2D and 3D",
  "Tests check one unit right triangle.",
  [MSH+"topology.rs"],[("face_normal, plane_from_face, face_centroid(_fast), face_area",MSH+"topology.rs")])
p("C32","Inside/outside tests use crossing parity with an early surface answer",
  "A query point is reported on the surface when it lies on a face, inside when rays from it cross the surface an odd number of times by majority of the probe directions, and outside otherwise; points outside the bounding region are outside. The closest hit is the one with the smallest non-negative distance among live faces.",
  ["inputs"],"all closed meshes and query points",
  "Tests query one cube.",
  [MSH+"topology.rs"],[("point_in_mesh_2/3, cast_ray_2/3",MSH+"topology.rs")])
p("C33","Smoothing moves only interior vertices, tangentially",
  "Tangential smoothing never moves a boundary or removed vertex and moves an interior vertex by the given factor times the tangential part of the mean offset to its neighbours, perpendicular to its normal; connectivity is untouched. A move that would overstretch an incident edge is not applied.",
  ["inputs"],"all meshes, factors and iteration counts",
  "Tests only run smoothing inside remeshing.",
  [MSH+"core.rs",PRC+"remesh.rs"],[("smooth_tangential, smooth_vertices",MSH+"core.rs, "+PRC+"remesh.rs")])
p("C34","Boolean operations keep exactly the faces their set operation needs",
  "Union keeps both meshes' faces lying outside the other, intersection both meshes' faces lying inside the other, and difference the first mesh's outside faces plus the second mesh's inside faces with reversed orientation. Kept faces retain their corner positions and, except for the reversed ones, their orientation.",
  ["inputs","configurations"],"all mesh pairs and all three operations",
  "Tests run one or two configurations and look at counts.",
  [PRC+"boolean.rs"],[("boolean operation selection and result assembly",PRC+"boolean.rs")])
p("C35","Inside/outside labels spread over faces but never across the intersection",
  "Face classification assigns one label per connected group of faces delimited by the intersection curve: a label spreads from a seed face only to adjacent live faces not separated by an intersection segment, and each group is labelled by testing a representative against the other mesh. Every live face of the mesh receives a label.",
  ["inputs"],"all co-refined mesh pairs",
  "Tests have two groups per mesh at most.",
  [PRC+"boolean.rs"],[("classify_faces_2/3 flood fill",PRC+"boolean.rs")])
p("C36","Intersection segments are deduplicated and chained without loss",
  "Removing duplicate and invalid segments drops only degenerate segments and repeated copies of the same undirected segment, preferring the coplanar-marked copy; linking segments connects each to the ones sharing an end point. Indexing a segment's end points returns first and second end point in order.",
  ["inputs"],"all segment lists",
  "Tests produce few duplicate segments.",
  [PRC+"boolean.rs",MSH+"intersection_segment.rs"],[("remove_duplicate_and_invalid_segments, build_links, end-point indexing",PRC+"boolean.rs, "+MSH+"intersection_segment.rs")])
p("C37","Face subdivision jobs describe the face they came from",
  "Each subdivision job of a face starts with the face's three corners in order, maps local points one-to-one to the corners and all cut ends of that face, encloses the face by its complete boundary chain ordered along each edge, and contains every cut of that face between points other than its corners as local constraint, split at points lying on it. The planar coordinates are an affine image of the face plane, the same for all points. There is one job for every live face with a cut or a cut end on its border.",
  ["inputs"],"all faces and cut patterns, 2D and 3D",
  "Tests cut faces by a single segment.",
  [PRC+"batching.rs"],[("build_face_pslgs_2/3, local/global maps, edge chains, planar frame",PRC+"batching.rs")])
p("C38","Rewriting a face uses its own triangulation and retires the original",
  "Replacing faces by their triangulations removes exactly the subdivided faces and adds, for each local triangle, the mesh triangle of the corresponding global vertices with the face's orientation. Jobs and triangulations are paired by face.",
  ["inputs"],"all batches of subdivided faces",
  "Tests have few jobs per batch.",
  [PRC+"boolean.rs",TRI+"delaunay.rs"],[("rewrite_faces_from_cdt_batch, build_batch_with_constraints",PRC+"boolean.rs, "+TRI+"delaunay.rs")])
p("C39","Delaunay triangulation: counter-clockwise, indexed in range, enclosing start",
  "Every triangle of a Delaunay triangulation refers to input points only, no triangle of the enclosing start triangle survives, and newly created triangles are oriented counter-clockwise. The enclosing start triangle surrounds all input points wherever they lie, and a point is inserted into exactly the triangles whose circumcircle contains it.",
  ["inputs"],"all point sets, anywhere in the plane",
  "Tests triangulate points near the origin.",
  [TRI+"delaunay.rs"],[("build, point insertion cavity, circumcircle test",TRI+"delaunay.rs")])
p("C40","Constraint insertion keeps adjacency in step and never flips a constraint",
  "Inserting constraint edges never flips an edge already marked as constraint, keeps the edge and vertex adjacency tables equal to the triangle list after every change, and splits a constraint at every input point lying on it in order along the segment. A constraint is only marked once its edge exists.",
  ["inputs","histories"],"all point sets and constraint orders",
  "Crossing constraints hardly occur in the tests.",
  [TRI+"delaunay.rs"],[("insert_constraint_walk, flip_shared_edge_with_adj, adjacency update, split_constraint_chain",TRI+"delaunay.rs")],
  [("adjacency","edge to triangles and vertex to triangles",TRI+"delaunay.rs")])
p("C41","Triangles kept for a face lie inside it and do not overlap",
  "From a constrained triangulation only triangles of positive area whose centroid lies inside the face outline and whose sides do not cross it are kept, and each side of each edge is used by at most one kept triangle. Of a triangulation that covers the face without overlaps all such triangles are kept.",
  ["inputs"],"all triangulations of a subdivided face",
  "Tests rarely produce outside triangles.",
  [TRI+"delaunay.rs"],[("triangles_inside_for_job",TRI+"delaunay.rs")])
p("C42","Remeshing applies each local operation only in its stated case",
  "A round of isotropic remeshing splits only edges longer than its upper bound (at their midpoint), collapses only edges shorter than its lower bound at that moment, flips only when the smallest angle of the two triangles improves, and smooths last; the bounds bracket the target length. Boundary edges are not flipped, and default options put the target between their lower and upper bound.",
  ["inputs","configurations"],"all meshes and options",
  "Tests check the overall result of one remesh.",
  [PRC+"remesh.rs"],[("split_long_edges, collapse_short_edges, should_flip_edge, isotropic_remesh",PRC+"remesh.rs")])
p("C43","OBJ export and import are inverse",
  "An exported OBJ file lists every vertex position in index order and every live face with one-based vertex indices in face order, so that importing it recreates the same positions and triangles. Removed faces are not written.",
  ["inputs","histories"],"all meshes",
  "No test reads back a written file.",
  [IO+"obj.rs"],[("write_obj / read_obj",IO+"obj.rs")])
p("C44","OFF export and import are inverse",
  "An exported OFF file announces exactly the number of vertices and faces it contains, lists positions in index order and live faces with zero-based indices, and importing it recreates the same positions and triangles.",
  ["inputs","histories"],"all meshes",
  "No test reads back a written file.",
  [IO+"off.rs"],[("write_off / read_off",IO+"off.rs")])
p("C45","STL export and import keep triangles and orientation",
  "An exported STL file contains one facet per live face with its corners in face order and the facet normal of that order, and importing keeps three corners per facet in file order.",
  ["inputs","histories"],"all meshes",
  "No test reads back a written file.",
  [IO+"stl.rs"],[("write_stl / read_stl",IO+"stl.rs")])
p("C46","Malformed mesh files are reported as errors, not panics",
  "Reading any byte sequence as OBJ, OFF or STL either returns a mesh or an error value; missing fields, unparsable numbers, wrong counts, non-triangular records and out-of-range vertex indices never panic and never produce a mesh with dangling indices.",
  ["inputs","fault_sequences"],"all input files",
  "Tests read no malformed file.",
  [IO+"obj.rs",IO+"off.rs",IO+"stl.rs"],[("parsers of the three readers",IO+"*.rs")])
p("C47","Triangle-triangle intersection points lie on both triangles' planes",
  "For two triangles in general position every reported intersection point lies on an edge of one triangle and in the plane and interior or border of the other, and disjoint triangles report nothing; exchanging the triangles reports the same set. Coplanar triangles are recognised as such.",
  ["inputs"],"all triangle pairs",
  "Tests cover a few axis-aligned pairs.",
  [GEO+"tri_tri_intersect.rs"],[("tri_tri_intersection and its edge/plane clipping",GEO+"tri_tri_intersect.rs")])
p("C48","Scalars, points, meshes and trees are safe to share between threads",
  "All scalar kinds, points, meshes and box trees can be moved to and shared between threads, and evaluating one lazy number concurrently gives every thread the same value. The library uses no unsafe code and no mutable global state that influences results.",
  ["schedules","programs"],"all safe client programs and thread interleavings",
  "Tests are single-threaded.",
  ["src/numeric/lazy_exact.rs","src/mesh/basic_types.rs","src/geometry/aabb_tree.rs"],
  [("thread-safe once cells and atomically counted sharing",NUM+"lazy_exact.rs")])
p("C49","Tables derived from the whole mesh cover every face and edge once",
  "The face adjacency table lists each face with exactly the faces across its edges, the cut table contains exactly the two faces beside each non-degenerate cut edge, and the face tree holds for every face one box computed from its three corners under that face's index. The average edge length is the root of the mean squared length with every edge counted once, and 1 for a mesh without edges.",
  ["inputs","programs"],"all meshes without removed faces, closed or with border, all cuts along interior edges",
  "No test calls these functions on meshes whose expected tables are known.",
  [MSH+"core.rs","src/mesh_processing/remesh.rs"],
  [("build_face_adjacency_graph, build_boundary_map, build_face_tree(_with_lookup)",MSH+"core.rs"),("compute_average_edge_length","src/mesh_processing/remesh.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
