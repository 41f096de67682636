#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script only to keep the file diffable."""
import json, os
H='include/walnut/'; S='src/walnut/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Big integer arithmetic is exact and values are canonical',
  "Addition, subtraction, multiplication, fused multiply-add/subtract, determinant, negation, absolute value, increment, decrement and every comparison on arbitrary-size integers give the mathematically exact result for operands of any size and sign, in value-returning and in-place form and also when an operand is the object itself. Values that are numerically equal compare equal and hash equally no matter which history of operations produced them.",
  ['inputs','histories'],"all integers of any word count and sign, and all sequences of in-place operations on one or two objects, including aliasing",
  "Unit tests sample a few dozen operand pairs; carries, sign extension and trimming interact at every word boundary, for every word count and for every history.",
  [H+'big_int.h',H+'big_int_words.h',H+'big_uint_word.h',S+'big_int.cpp'],
  [('carry propagation and trim to the shortest two\'s complement form',H+'big_int.h'),('schoolbook signed multiply',S+'big_int.cpp')],
  ['BigInt public operators'])
p('C02','Big integer division, remainder, gcd and shifts are exact',
  "For every dividend and non-zero divisor, the quotient is truncated towards zero, the remainder has the dividend's sign and is smaller in magnitude than the divisor, and quotient times divisor plus remainder is the dividend. The greatest common divisor divides both inputs and has the largest possible magnitude. Shifting left by n is multiplication by 2 to the n for every n, signed or unsigned.",
  ['inputs'],"all dividend/divisor pairs of any word count and sign; all shift amounts",
  "The long division works in ~30 bit steps with a truncated divisor and a single final correction; whether the remaining error is always at most one divisor is a claim about every bit pattern.",
  [H+'big_int.h',H+'big_uint.h',S+'big_int.cpp'],
  [('BigUInt long division with reciprocal estimate',H+'big_uint.h'),('signed wrapper',S+'big_int.cpp')],['/, %, DivideRemainder, <<, GetGreatestCommonDivisor'])
p('C03','Conversions between native numbers, text and exact numbers are faithful',
  "Converting a native integer into an exact integer, and converting a finite double coordinate triple into an exact homogeneous point or direction, is lossless; when a minimum grid exponent of zero or less is requested, every coordinate is the nearest multiple of that grid. Converting an exact integer or point to floating point yields a value within one unit in the last place of the exact value with the correct sign, and exactly that value when it is representable. Printing an exact integer yields its exact decimal digits, and the text of points, vectors, lines and half-spaces lists their components in order. Rounding a fraction to a coarser denominator yields the nearest multiple on the requested side.",
  ['inputs'],"all native integers, all finite doubles (all exponents, both signs, subnormals), all integers of any size, all grid exponents",
  "Tests convert a handful of round values; the failing values are at word, mantissa and exponent boundaries.",
  [S+'big_int.cpp',S+'homo_point3.cpp',S+'point3.cpp',S+'double_point3.cpp',H+'homo_point3.h',H+'point3.h',H+'double.h',H+'double_point3.h',H+'rational.h'],
  [('two/three word float conversion',S+'big_int.cpp'),('common exponent alignment of doubles',S+'homo_point3.cpp')],['operator double, FromDoublesExact, FromDoubles, GetDoublePoint3, operator<<'])
p('C04','Every ordering is a strict weak order that matches the geometry it names',
  "The orderings used to sort vectors by direction, half-planes and half-spaces as if unsided, points lexicographically or by topness, and rational numbers are irreflexive, asymmetric, transitive and have transitive incomparability, and two items are incomparable exactly when they denote the same direction, unsided line, unsided plane, point or number. The order agrees with the exact geometric quantity (rotation angle, coordinates, value) and does not depend on the positive or negative scale used to represent an item.",
  ['inputs'],"all pairs and triples of representable vectors, half-planes, half-spaces, points and rationals, in every representation",
  "Transitivity is a statement about all triples; the tests compare neighbouring pairs. A non-transitive comparator silently corrupts std::set/std::sort users.",
  [H+'vector2.h',H+'half_space2_sideless_compare.h',H+'half_space3.h',H+'homo_point2.h',H+'homo_point3.h',H+'rational.h',H+'point2.h',H+'point3.h',H+'double_point3.h'],
  [('rotation compare',H+'vector2.h'),('sideless compare',H+'half_space2_sideless_compare.h'),('HalfSpace3Compare',H+'half_space3.h'),('LexicographicallyLt / TopnessLt',H+'homo_point3.h')])
p('C05','Exact predicates depend on the geometry, not on its representation',
  "Equality, side-of-plane, point-on-line, coincidence, turn direction and coordinate comparison give the answer of exact rational geometry for points with any non-zero homogeneous weight, planes with any positive scale and lines with any scale. Replacing an argument by another representation of the same object never changes an answer, and reversing an orientation flips exactly the oriented answers.",
  ['inputs'],"all points, lines, planes, and all representations (positive, negative and large scales) of each",
  "Tests use weight 1 almost everywhere; negative and mixed-sign weights only arise after plane intersections inside the pipeline.",
  [H+'homo_point3.h',H+'homo_point2.h',H+'half_space3.h',H+'half_space2.h',H+'plucker_line.h',H+'vector3.h',H+'vector2.h',H+'point3.h',S+'homo_point3.cpp',S+'plucker_line.cpp'],
  [('Get2DTwistDir, GetPlaneSide, CompareComponent',H+'homo_point3.h'),('IsCoincident',H+'plucker_line.h')])
p('C06','Constructed planes, lines and intersection points are exactly incident',
  "A plane built from three points or from a point and a normal contains those points and faces the counter-clockwise side; a line built from two points or two planes contains those points or lies in those planes and points in the documented direction. The intersection of a line with a plane or of three planes lies exactly on each of them, and a degenerate configuration yields an invalid object instead of a wrong one. Projecting or dropping a dimension commutes with these constructions.",
  ['inputs'],"all non-degenerate and degenerate point pairs/triples, plane pairs/triples and line-plane pairs, in any homogeneous scale",
  "Each construction is a polynomial identity over all inputs; tests check a few axis-aligned cases.",
  [H+'plucker_line.h',S+'plucker_line.cpp',H+'half_space3.h',H+'half_space2.h',H+'homo_point3.h',H+'homo_point2.h',H+'vector3.h',S+'half_space3.cpp',S+'half_space2.cpp'],
  [('Plucker joins and meets',H+'plucker_line.h'),('HalfSpace3 from points',H+'half_space3.h')])
p('C07','Bounding boxes are tight and conservative and cut planes exactly',
  "The bounding box computed from the vertices of a convex polygon (also after the polygon was split, rotated or edited) is the smallest box on its grid (the largest vertex denominator among the extreme vertices) that contains them, and its recorded extreme vertices are extreme. Containment, border and equality answers of a box are those of real coordinate intervals, for any homogeneous representation. The reported side of a plane is positive, negative or (including touching) straddling exactly as the box's corners are. The polygon cut by a plane from a box is the exact cross-section, and the box's own faces bound exactly the box.",
  ['inputs','histories'],"all boxes, planes, points with any homogeneous weight, all vertex lists and all sequences of polygon splits",
  "Whether rounding is outward and whether a plane clips corner, edge or face is a case split over all planes and boxes that tests sample sparsely.",
  [H+'aabb.h',S+'aabb.cpp',H+'convex_vertex_aabb_tracker.h'],
  [('AABB interval arithmetic with common denominator',H+'aabb.h'),('IntersectPlane corner walk',S+'aabb.cpp')])
p('C08','Splitting a convex polygon by a plane partitions it exactly',
  "For every convex polygon and plane, the split classification is exact: the polygon is reported on the negative side, on the positive side, coplanar, or crossing exactly as its vertices lie. When it crosses, the two children are valid convex polygons on their own sides, share exactly the cut segment, keep the original plane, orientation and edge ancestry, and their union is the original polygon.",
  ['inputs','histories'],"all convex polygons (any vertex count, start vertex, homogeneous weights), all planes, and all sequences of successive splits",
  "The split search is a binary search over vertex extrema with wrap-around; the failing inputs combine vertex position, start index, ties and collinear vertices.",
  [H+'convex_polygon.h',H+'mutable_convex_polygon.h',H+'convex_polygon_split_info.h',S+'convex_polygon_split_info.cpp',H+'aabb_convex_polygon.h'],
  [('GetSplitInfo / CreateSplitChildren',H+'convex_polygon.h')],['ConvexPolygonSplitInfo ranges and the children'])
p('C09','Polygon and mesh measurements equal their exact geometric values',
  "The reported area, centroid, extreme vertex in a direction, vertex farthest from a plane, mesh centroid, box diagonal, and projection or plane summary of a polygon or mesh equal the values computed by exact rational geometry, up to documented rounding where the result is floating point. They do not depend on the start vertex or the homogeneous representation of the vertices.",
  ['inputs'],"all convex polygons and closed meshes, every direction, drop dimension, start vertex and homogeneous weight",
  "Tests measure a few squares and triangles with weight 1; divisions by weight, sign of weight and start vertex are independent dimensions.",
  [H+'convex_polygon.h',H+'mesh.h',H+'aabb.h'],[('GetProjectedArea/GetCentroid/GetExtremeIndexBisect',H+'convex_polygon.h'),('GetCentroid over meshes',H+'mesh.h')])
p('C10','Polygon editing histories preserve the polygon they describe',
  "Sorting vertices, rotating the start, inserting a collinear vertex on an edge, inverting, merging two polygons across a shared edge, trimming redundant vertices, copying, moving, and swapping keep each polygon's point set (or exactly its mirror orientation), keep every vertex attached to its own edge line and (except across an inversion, where edge data stays at its index) its edge data, and keep cached bounds correct. Two polygons compare equal exactly if plane, cyclic vertex sequence and edge data agree. Merging succeeds only if the union is convex and coplanar, and it then describes exactly the union.",
  ['histories','inputs'],"all sequences of edit operations on all small convex polygons, including repeated and inverse operations",
  "Cached per-edge and bounding-box state is updated incrementally; a stale cache only shows after a particular sequence of edits.",
  [H+'convex_polygon.h',H+'mutable_convex_polygon.h',H+'aabb_convex_polygon.h',H+'convex_vertex_aabb_tracker.h',H+'convex_polygon_edge.h'],
  [('SplitEdge/TryMergePolygon/SortVertices',H+'mutable_convex_polygon.h'),('AABBConvexPolygon tracker updates',H+'aabb_convex_polygon.h')],
  state=[('vertex extrema tracker','index of the min/max vertex per dimension',H+'convex_vertex_aabb_tracker.h')])
p('C11','Arbitrary polygons are decomposed into convex pieces that cover them exactly',
  "For every planar polygon given as a vertex loop (convex or not, with any start vertex, orientation, homogeneous representation, and also with collinear, repeated or revisited vertices and edges that run back along each other), the emitted pieces are valid convex polygons on the loop's plane whose vertices are input vertices, and their directed boundary edges, split at input vertices, add up to exactly the loop's edges, so the pieces cover exactly what the loop winds around. For a simple loop that is monotone in the decomposer's sweep direction all pieces have the loop's orientation and do not overlap; for other loops pieces of opposite orientation may cancel. Every piece edge carries the data of its start vertex. Collinear input emits nothing, and a slightly non-planar loop still yields pieces whose edges add up to the loop.",
  ['inputs'],"all vertex loops on small grids, each orientation and rotation, including collinear runs",
  "Monotone decomposition depends on the vertex order, ties and turn directions; tests cover a dozen hand-made shapes.",
  [H+'convex_polygon_factory.h',H+'planar_range.h',H+'monotone_decomposer.h',H+'orienting_monotone_decomposer.h',H+'monotone_range.h',H+'monotone_triangulator.h'],
  [('monotone decomposition and triangulation',H+'monotone_decomposer.h'),('piece merging',H+'convex_polygon_factory.h')])
p('C12','Partitioned space classifies every region and polygon correctly',
  "After inserting any closed meshes and splitting space by any sequence of planes, every leaf's reported inside/outside status per mesh is that of the points of its region, and every piece of polygon held in a leaf lies in that leaf's region; the pieces together are exactly the inserted polygons. Border pieces are attributed to the correct side of each splitting plane. Reset returns the partition to its empty initial state.",
  ['inputs','histories'],"all sets of small closed meshes, all sequences of splitting planes (including planes touching vertices, edges and faces), all insertion orders",
  "Winding bookkeeping at vertices, edges and coplanar faces depends on the whole split history.",
  [H+'bsp_tree.h',H+'bsp_node.h',H+'bsp_polygon.h',H+'bsp_edge_info.h',H+'bsp_content_info.h'],
  [('PWN push-down and min/max tracker in BSPNode::PushContentsToChildren',H+'bsp_node.h')],
  state=[('positive winding number per mesh and cell','inside/outside of the cell interior',H+'bsp_content_info.h')])
p('C13','Boolean operations produce exactly the set-theoretic result',
  "For any closed input meshes, the output boundary of union, intersection, difference, symmetric difference, inversion and their nested combinations encloses exactly the points that the set expression selects: every point off the boundary has winding number one inside the result and zero outside. For symmetric difference and odd-count selections, whose facets keep their input orientation, inside is decided by the parity of boundary crossings. This includes touching, overlapping, nested, disjoint and identical inputs with coplanar faces, and any mesh subset or id assignment. The splitting planes that the output's edges refer to still exist and contain the edge or vertex they are recorded for.",
  ['inputs','programs'],"all pairs and triples of small closed meshes on a grid, all boolean expressions, all relative placements including degenerate contact",
  "Degenerate contacts (coplanar faces, shared edges and vertices) multiply with operations and id order; tests exercise a few boxes.",
  [H+'bsp_visitor.h',H+'boolean_operation_filter.h',H+'bsp_traverser.h',H+'bsp_tree.h',H+'bsp_node.h'],
  [('filters and PolygonAccepted decision',H+'boolean_operation_filter.h'),('coincident face handling in BSPVisitor',H+'bsp_visitor.h')])
p('C14','Boolean output is a watertight mesh with mutually consistent neighbours',
  "The connected output of a boolean operation is closed: every directed edge is matched by exactly the opposite directed edge, each edge's recorded neighbour shares that edge in the opposite direction and records it back, and where several polygons meet in one edge the pairing joins polygons that bound the same solid wedge. Connecting does not change any polygon's geometry. The splitting planes that the output's edges refer to still exist and contain the edge or vertex they are recorded for.",
  ['inputs'],"all boolean results over small closed meshes, including edges shared by four or more polygons, and all fans of polygons around a line",
  "Edges where more than two polygons meet need an angular pairing; tests only cover hand-made fans.",
  [H+'connecting_visitor.h',H+'edge_line_connector.h',H+'connected_polygon.h',H+'edge_info_root.h'],
  [('angular sort and pairing per edge line',H+'edge_line_connector.h')])
p('C15','The result does not depend on how space is partitioned or inputs are ordered',
  "For given meshes and a boolean expression, the enclosed point set is the same for every choice of splitting strategy, every legal sequence of splitting planes, every insertion order of polygons or meshes, every rotation of a polygon's vertex list, and every assignment of mesh identifiers.",
  ['histories','inputs','configurations'],"all partitioning schedules up to a depth and all insertion permutations of small inputs",
  "Tests run one strategy in one order; this is a statement about all orders.",
  [H+'bsp_traverser.h',H+'bsp_tree.h',H+'bsp_node.h',H+'plane_partitioner.h',H+'bsp_visitor.h'],
  [('strategy-independent winding bookkeeping',H+'bsp_node.h')])
p('C16','Filters prune and classify consistently with the set expression they denote',
  "For every boolean filter expression and every inside/outside/boundary assignment of the meshes, the filter's point decision equals the set expression, and whenever it reports that a region's content cannot change the outcome, no assignment of the undecided meshes changes it. Composed filters mean the composition of their parts, for any mesh id and any number of known meshes.",
  ['inputs','programs'],"all filter expressions up to a depth, all content assignments, all id values including ids beyond the tracked range",
  "Pruning soundness is a universally quantified implication; tests check a few table rows.",
  [H+'boolean_operation_filter.h',H+'bsp_content_info.h'],[('filter operator() and boundary evaluation',H+'boolean_operation_filter.h')])
p('C17','Region borders and the geometry of partition cells are exact',
  "The boundary polygons reported for a partition cell within a bounding box are exactly the faces of that convex cell, with outward orientation, together closed, and each lies on one of the cell's splitting planes or box walls. An empty cell has no border.",
  ['histories','inputs'],"all short sequences of splitting planes and both sides of each, all boxes",
  "A cell's border depends on which of its ancestors' planes are redundant, which tests sample in one or two examples.",
  [H+'bsp_tree.h',H+'aabb.h',H+'half_space3.h'],[('BSPTree::GetNodeBorder',H+'bsp_tree.h')])
p('C18','Repaired facets lie on their planes and stay near their input',
  "Given the facets of a solid whose vertices were rounded, the plane repair outputs polygons with all vertices exactly on one plane per polygon; every polygon keeps the cyclic vertex order of its facet, the polygons of a facet add up to it, a vertex shared by facets stays one vertex, and no vertex moves by more than a small multiple of the rounding error, whatever the order of the facets and their start vertices. Facets that were already planar keep their vertices and are not split. A nudged plane goes through every constrained point it accepted and through the first adjustable points needed to define it, asking for its size never changes it, and a constrained point is refused exactly when three constrained points already define a plane without it.",
  ['inputs','histories'],"all facet lists over small vertex grids, all sequences of constraint additions",
  "The repair is a greedy sequence of accept/reject steps with cached planes; stale caches and order errors only show for particular sequences.",
  [H+'mesh_plane_repairer.h',S+'mesh_plane_repairer.cpp',H+'nudging_plane_builder.h',S+'nudging_plane_builder.cpp'],
  [('incremental constrained plane fit',S+'nudging_plane_builder.cpp'),('AcceptFacet bookkeeping',H+'mesh_plane_repairer.h')])
p('C19','Exclusive access tokens have one holder and always find their way home',
  "For every sequence of lending, moving, returning, destroying and re-lending of tokens, at most one live token gives access to an object, the object learns of its current holder, and when a lent token is returned or destroyed access goes back to the lender. A token or lender that is destroyed never leaves a dangling holder.",
  ['histories'],"all operation sequences up to a depth over a few token objects",
  "Ownership chains are pointer-linked state machines; tests run a few linear histories.",
  [H+'deed.h',H+'edge_info_root.h',H+'assignable_wrapper.h'],[('Deed lending chain',H+'deed.h')])
p('C20','Redirected values and shared vertex mapping keep one value per class',
  "For every sequence of creations, assignments, redirections, copies, moves and destructions, all values redirected together read the same content, redirected ones follow the primary they were merged into, and unrelated values are never affected. Mapping exact vertices to floating point assigns one stored position per distinct vertex and reuses it for every occurrence, and nearby or merged vertices stay merged.",
  ['histories'],"all operation sequences up to a depth over a few values",
  "Union-find style redirection with reference counts fails only for particular interleavings of redirect and destroy.",
  [H+'redirectable_value.h',H+'vertex_double_point3_mapper.h'],[('redirect chains with path compression and reference counts',H+'redirectable_value.h')])
p('C21','Sequence adapters behave like the sequence they denote',
  "The concatenation of any lists of ranges iterates exactly the elements in order, forwards, backwards and by random access offset (iterator + n, iterator[n]), after any sequence of appending, prepending and clearing, with equality of positions that agrees with a plain vector. A transformed iterator reads the transformation of the underlying element at every position reachable by any sequence of iterator operations.",
  ['inputs','histories'],"all shapes of nested ranges (including empty ones) and all sequences of iterator movements up to a bound",
  "Empty subranges, jumps over several subranges and movements from the end are combinations the tests do not enumerate.",
  [H+'concat_range.h',H+'transform_iterator.h',H+'convex_polygon_vertex_iterator.h'],[('iterator position arithmetic',H+'concat_range.h')])
p('C22','Import, export and filters for the visualization toolkit preserve solids',
  "Importing polygonal data (polygons, convex or not, and triangle strips of any length, optionally flipped, with shared or repeated points) yields convex polygons with the same oriented surface, skipping triangles without area. Exporting yields one cell per polygon with the same vertices to double precision, one point per distinct vertex and no unused points. Executing the boolean filter on any number of closed inputs yields a closed mesh that encloses the union, intersection or difference of the inputs; from an open input it never makes an open mesh without reporting an error.",
  ['inputs','configurations'],"all cell types and sizes, orientations, operations and small closed inputs",
  "The existing tests import cubes and a few cells; strip parity and index offsets depend on strip length.",
  ['vtk_interface/include/walnut/vtk_to_walnut_mesh.h','vtk_interface/include/walnut/walnut_to_vtk_mesh.h','vtk_interface/src/vtkWalnutBooleanFilter.cpp'],
  [('cell conversion','vtk_interface/include/walnut/vtk_to_walnut_mesh.h'),('filter request handling','vtk_interface/src/vtkWalnutBooleanFilter.cpp')])
p('C23','Extrusion yields the closed prism of its profile',
  "Extruding a planar profile loop (convex or not, with any start vertex, orientation, representation and extrusion direction) produces convex polygons that add up to the closed prism of the profile: the loop at one end, its translated reverse at the other end and one parallelogram per edge, using only profile and translated vertices. The mesh is oriented outward when the profile faces away from the extrusion direction and inward when it faces along it. Extrusions along the plane of the profile or by nothing enclose nothing.",
  ['inputs'],"all simple profile loops on a small grid, all axis choices, directions and distances",
  "Orientation, start vertex and concavity are combined only in a few tests.",
  [H+'extrude.h',S+'extrude.cpp'],[('ExtrudePolygons / side wall generation',S+'extrude.cpp')])
p('C24','Tie-breaking perturbation orders degenerate contacts consistently',
  "The perturbation that breaks ties between splits is a shear by a sufficiently small positive amount: comparing two points orders them as a concretely sheared pair is ordered, and the angle comparison of plane normals has the sign of the cross product of the sheared normals, being zero exactly for parallel normals. In every BSP tree, after any sequence of splits, each polygon and each of its edges and vertices records exactly the first and last ancestor planes that contain it, and a polygon on a split plane is kept on the side given by the direction of its normal.",
  ['inputs','histories'],"all planes, edges and vertices over small coefficient sets and all short split sequences",
  "Consistency relates every pair of tests over all directions; tests check single evaluations.",
  [H+'r_transformation.h',S+'r_transformation.cpp',H+'bsp_edge_info.h',H+'bsp_polygon.h',H+'bsp_node.h'],
  [('R-transformation',S+'r_transformation.cpp'),('boundary angle bookkeeping',H+'bsp_edge_info.h')])
p('C25','Split cost estimates stay within their documented error',
  "The fast estimator of the cost m*log2(n) of splitting returns, for every count n and multiplier m, a value that never exceeds the true cost and is below it by no more than the interpolation gap and one unit, never decreases when m or n grows, and does not depend on earlier queries. The cost of a split position computed from the event counts equals the sum of both sides' costs within that error.",
  ['inputs'],"all counts in the supported range and all pairs of estimates",
  "Tests sample counts; table boundaries and rounding need every value.",
  [H+'m_log_n_estimator.h',S+'m_log_n_estimator.cpp'],[('table based estimate',S+'m_log_n_estimator.cpp')])
p('C26','Partition planning events stay exact under recursive splitting',
  "For every list of polygons, the sorted start and end events per axis pair up exactly with the extents of the polygons and the chosen split is the cheapest of all split positions, with the right counts on both sides. After any sequence of applied splits, the polygons kept, moved, divided and set aside on the split plane are the exact parts of the input, and the maintained events of both sides in all three dimensions equal those of the remaining polygons.",
  ['inputs','histories'],"all small multisets of boxes/intervals and all sequences of partition steps",
  "Incremental bookkeeping must agree with recomputation after every history, including ties and polygons that straddle or touch the split.",
  [H+'polygon_event_point.h',H+'plane_partitioner.h',H+'bsp_traverser.h'],[('event list sweep and in-place partition',H+'polygon_event_point.h')])
p('C27','Neighbour links survive moves, edits and open meshes',
  "Polygons joined along their edges stay joined to the same neighbours through any history of moving, swapping, relocating, copying, sorting vertices, dividing edges, reconnecting, merging polygons and removing emptied ones: links are mutual, every edge knows its polygon and position, access tokens follow their edge, and a vertex made redundant by a merge is removed on both sides at once and only where both sides agree. Connecting half-edges that overlap on a line links every stretch of a closed set to the polygon that comes first when turning through the solid; an open set is reported, is never fatal, and leaves only exact mutual links.",
  ['histories','inputs'],"all operation histories up to a depth over small connected meshes, all sets of half-edges on a line, all small meshes with holes",
  "Links are raw pointers into vectors that every edit relocates; one missed update shows only after a particular later step, and open meshes are hardly tested.",
  [H+'connected_polygon.h',H+'edge_line_connector.h',H+'connecting_visitor.h',H+'convex_polygon.h',H+'deed.h'],
  [('link maintenance in ConnectedEdge move and merge',H+'connected_polygon.h'),('sweep over overlapping half-edges',H+'edge_line_connector.h')])
p('C28','Exact arithmetic does not depend on compiler extensions',
  "Built without the optional compiler extensions (128 bit integers, overflow and bit counting builtins), every word operation, big integer operation and cost estimate gives the same exact results as with them: carries, borrows, double-word and signed products, shifts across words and bit counts are exact for all operands, and the portable bit counting functions agree with the accelerated ones.",
  ['inputs','configurations'],"all pairs and triples of boundary words, and all operands of the arithmetic properties, in both build configurations",
  "The test suite only ever runs the configuration of the compiler at hand, so the portable code of every word operation is not executed by any test.",
  [H+'big_uint_word.h',H+'m_log_n_estimator.h',H+'big_int.h',H+'big_uint.h'],
  [('portable carries, products and bit counts',H+'big_uint_word.h'),('portable product of the estimate',H+'m_log_n_estimator.h')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
