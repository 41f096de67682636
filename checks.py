# Configuration of each check: harness sources, build flags, what decides it.
COMMON = ['g++ 13.3 and its run-time library translate the sources faithfully',
          'boost::multiprecision::cpp_int / cpp_rational, the arithmetic of the oracles, is exact',
          'behaviour outside the enumerated bounds is not covered']
EXH = 'Bounded exhaustive: every case of the stated spaces is executed on the real code and compared with an independent exact model; nothing is sampled. '
def C(src, technique, note, asan=True, **kw):
    d = dict(src=src, technique=technique, note=EXH + note, asan=asan, assumptions=COMMON)
    d.update(kw)
    return d
CHECKS = {
 'C01': C(['c01_bigint.cpp'], 'explicit-state exploration of operand pairs and operation histories on the real BigInt against an arbitrary-precision model',
          'Operands up to 4 words built from boundary words, all operation histories to depth 4-6 over two objects. Address sanitizer is on.'),
 'C02': C(['c02_divide.cpp'], 'exhaustive enumeration of dividend/divisor bit-boundary pairs on the real code against an arbitrary-precision model',
          'All dividend/divisor pairs over boundary word patterns, all shift amounts in range. Address sanitizer is on.'),
 'C03': C(['c03_convert.cpp'], 'exhaustive enumeration of exponent/mantissa/word boundary values on the real conversions against exact rationals',
          'Every binary exponent times boundary mantissas, both signs; all word boundary patterns up to 3 words. Grids coarser than 1 are out of scope.'),
}
NOT_APPLICABLE = {}
CHECKS['C04'] = C(['c04_orders.cpp'], 'exhaustive check of the strict-weak-order axioms over all pairs and triples of small item sets in many representations, on the real comparators',
  'All pairs and triples of each item set (48-480 classes, several positive/negative/large scales each); ranks compared with exact geometry where documented.', asan=False)
CHECKS['C05'] = C(['c05_predicates.cpp'], 'exhaustive enumeration of small points, planes, lines and their representations on the real predicates against an exact integer oracle',
  'Coordinates in -2..5, weights 1..3, every combination of positive, negative and multi-word scales.', asan=False)
CHECKS['C06'] = C(['c06_constructions.cpp'], 'exhaustive enumeration of small point, plane and line tuples in many representations on the real constructions against exact integer incidence',
  'All triples of 17+ points, pairs and triples of 86+ planes, lines through all point pairs, with positive, negative and multi-word scales.', asan=False)
CHECKS['C13'] = C(['c13_boolean.cpp'], 'exhaustive enumeration of small solids, relative positions and set expressions on the real BSP pipeline, decided by exact winding numbers at one sample per cell of the plane arrangement',
  'All pairs of 2x2x2 voxel solids up to symmetry (also sheared), all interval relations of two boxes, 32 oblique shapes at all small offsets, nested and multi-winding expressions, scaled representations; axis-aligned and polygon-plane splitting strategies.', asan='thorough')
CHECKS['C14'] = C(['c14_connect.cpp'], 'exhaustive enumeration of small solids and set expressions on the real connecting visitor, decided by exact half-edge matching and angular order',
  'All pairs of 2x2x2 voxel solids up to symmetry (also sheared), 30 oblique shapes at small offsets, three-mesh expressions; both splitting strategies.', asan='thorough')
CHECKS['C08'] = C(['c08_split.cpp'], 'exhaustive enumeration of small convex polygons, start vertices, frames, weights, planes and split histories on the real code against an exact 2D rational model',
  'All weakly convex loops on a 3x3 grid (with collinear vertices), 4x4 grid and larger loops, ten oblique frames, both orientations, every start vertex; a fixed enumeration of lines, split depth up to 3. The quick tier executes a fixed subset of the product.', asan='thorough')
CHECKS['C09'] = C(['c09_measure.cpp'], 'exhaustive enumeration of small polygons and meshes in many representations on the real measurements against exact rationals',
  'All weakly convex loops on a 3x3 grid, a fixed subset of 4x4 loops, larger loops, fractional loops and library meshes; every start vertex, orientation, drop dimension and weight pattern (including negative and multi-word); all small directions and offsets.', asan='thorough')
CHECKS['C10'] = C(['c10_edit.cpp'], 'explicit-state exploration of all edit histories (rotate, sort, invert, insert vertex, copy/move/swap, cut and rejoin) to a bounded depth, and of all joins of small polygon pairs, on the real polygons against an exact model',
  'Histories of depth 2-3 over all weakly convex loops on 3x2 and 3x3 grids in ten frames (a fixed subset of the product in the quick tier), all joins of two 3x2 loops along equal edges, folded joins, and equality over all rotations and single changes. Plain and bounding-box-caching polygons.', asan='thorough')
CHECKS['C07'] = C(['c07_aabb.cpp'], 'exhaustive enumeration of small boxes, points, planes, vertex triples and rounding operands in many representations on the real code against exact integer interval arithmetic',
  'Boxes over 7 intervals per axis and three denominators, five scales; all planes with normal components in -2..2 and offsets -9..9; points in -3..3 with weights 1..3 and negative/multi-word scales; vertex triples of 42 points.', asan='thorough')
CHECKS['C12'] = C(['c12_partition.cpp'], 'explicit-state exploration of insertion/split/reset histories of the real BSP tree; every leaf is compared with the exact winding numbers at one sample per cell of the plane arrangement',
  '27 shapes, all ordered pairs of 17 splitting planes in both directions (fixed subsets of the triples and quadruples), every insertion point of the meshes, pairs of shapes at six offsets split at their own faces.', asan='thorough')
CHECKS['C15'] = C(['c15_schedules.cpp'], 'explicit-state exploration of insertion orders, split schedules, identifier assignments and traversal histories of the real BSP pipeline; every result is compared with the exact set-theoretic winding numbers',
  'All face orders of tetrahedron pairs, all ordered pairs of 10 extra splitting planes with meshes inserted before, between and after them, nine kd bounds times vertex rotations and list reversals, all identifier assignments from five values, all depth-3 histories of traversals with different filters and a late mesh; 12 contact situations and nine expressions.', asan='thorough')
CHECKS['C16'] = C(['c16_filters.cpp'], 'exhaustive enumeration of filter expressions and content assignments on the real filters; pruning is decided by enumerating every completion of the undecided meshes',
  'All compositions of two filters with pwn -2..2 and all polygon flags, all compositions of three, compositions of two pairs, all id lists up to length 4 over four ids, every tracked range from none to all ids.', asan='thorough')
CHECKS['C17'] = C(['c17_border.cpp'], 'exhaustive enumeration of split sequences and sides on the real GetNodeBorder functions; every reported border is compared with the exact facet lattice of the cell',
  'All ordered sequences of up to three of 23 splitting planes (four over windows of 5) with both sides of each, three boxes including planes that miss, touch or coincide with the box; borders with and without box walls.', asan='thorough')
CHECKS['C21'] = C(['c21_adapters.cpp'], 'explicit-state exploration of all histories of building and walking the real adapters, against plain sequences',
  'All append/prepend/clear histories to depth 4 over vector, deque and list ranges and sub-ranges of other concatenations, every position, offset and direction; all movement sequences to depth 4 of a transform iterator with state over up to 5 items. Address sanitizer is on.')

CHECKS['C19'] = C(['c19_deeds.cpp'], 'explicit-state exploration of ownership: every legal operation sequence from every reachable ownership state of three objects and four tokens, on the real classes against a model of lending chains',
  'All ownership states reachable in 5 operations, each continued by every sequence of two further operations and by tearing everything down in both orders; container histories to depth 4. Address sanitizer is on.')

CHECKS['C20'] = C(['c20_redirect.cpp'], 'explicit-state exploration of all histories of creating, copying, redirecting, writing, reading and destroying redirectable values, and of all mapping orders of vertex fans, on the real classes against an equivalence-class model',
  'Four values, all histories to depth 4 from zero to four fresh values; all sequences of four merges of five classes; all fans of three to five triangles over four floating point representations of one vertex, every mapping order, open and closed, both merge directions. Address sanitizer is on.')

CHECKS['C11'] = C(['c11_decompose.cpp'], 'exhaustive enumeration of small vertex loops (all sequences of grid points, in many frames and representations) on the real factory, decided by exact boundary chains',
  'All sequences of three to six points of a 3x3 grid, with and without repeats, longer ones on 3x3, 4x3 and 6x2 grids, seven families of simple loops with up to 60 vertices, in fourteen frames; plain, homogeneous and data-carrying vertices (fixed subsets in the quick tier).', asan='thorough')
CHECKS['C23'] = C(['c23_extrude.cpp'], 'exhaustive enumeration of small profiles, directions, denominators and representations on the real extrusion, decided by exact boundary chains per plane',
  'Vertex sequences on 3x3 and 4x3 grids in 14 frames (a fixed subset of the longer ones in the quick tier), twelve directions each including both sides, oblique, in-plane and zero, denominators +-1..3, positive, negative and multi-word weights.', asan='thorough')
CHECKS['C24'] = C(['c24_rtransform.cpp'], 'exhaustive enumeration of point and normal pairs in many representations, and of split sequences of the real BSP tree, against a concretely displaced exact model and the exact incidences of every piece with its ancestors',
  'All pairs of points with coordinates in -2..2 and weights 1..3, all pairs of normals with components in -3..3 (4 thorough) at three scales, three displacements; 27 shapes under ordered triples of 17 splitting planes (a fixed quarter in the quick tier), mesh inserted before any of them.', asan='thorough')
CHECKS['C25'] = C(['c25_cost.cpp'], 'exhaustive enumeration of counts and of call histories of the real estimator against the exact cost and its known interpolation gap',
  'All counts below 4096 (16384 thorough) with multipliers up to four times the count, seven counts around each power of two and two middles up to 2^62 with multipliers up to 2^57, all call histories of length four over 23 counts, all splits of up to 48 (160) polygons per side with every exclusion.', asan='thorough')
CHECKS['C26'] = C(['c26_events.cpp'], 'explicit-state exploration of all recursive partition histories of small polygon lists on the real event lists; after every step the maintained events and polygons are compared with those recomputed from exact coordinates',
  'All ordered lists of up to three of 14 polygons (axis-aligned and oblique, both directions) with every split position in every dimension to depth 2-3, fixed subsets of lists of four, five and eight; rotations, ids and weights (negative, multi-word) vary with the list.', asan='thorough')

CHECKS['C18'] = C(['c18_repair.cpp'], 'exhaustive enumeration of constraint histories of the real plane builder and of small displacements of the vertices of solids, facet orders and start vertices on the real repairer, against exact incidences',
  'All histories of up to five (six thorough) additions and queries over two sets of points in general position and one with collinear points; ten solids with every facet order and rotation of a fixed list, all displacements of one vertex and a fixed subset of pairs and dense patterns by one unit in -1..1 per axis at sizes 64 and 1024; forty exactly planar meshes including vertices on straight edges.', asan='thorough')

CHECKS['C22'] = C(['c22_vtk.cpp'], 'exhaustive enumeration of small cells, strips, meshes and filter inputs on the real interface, decided by exact boundary chains, exact vertex comparison and exact winding numbers',
  'All simple and crossing loops of three points of a 3x3 grid in 14 frames (fixed subsets of four and five), all strips of up to six (seven thorough) points of a six point set with repeats, long and mixed strips, 36 meshes in four cell styles; export of 36 meshes in eight representations and of connected differences; filter runs on pairs at offsets -1..1 (a fixed subset) and on up to five inputs, three operations.', asan=False, vtk=True)

CHECKS['C27'] = C(['c27_links.cpp'], 'explicit-state exploration of all histories of moves, swaps, reallocations, edge splits, reconnections, vertex sorts and merges on really connected polygons against a model of edge tokens, and of open meshes through the real pipeline',
  'Eight meshes (closed, open, two-sided, triangulated, oblique) in three polygon types: every history of two steps, every history of three (four thorough) over a fixed subset of the steps; every subset of the polygons of a bar and every pair of holes in the 2x2x2 voxel solids (a fixed subset in the quick tier).', asan='thorough')

CHECKS['C28'] = C(['c28_portable.cpp'], 'exhaustive enumeration of word operands, and the explicit-state explorations of C01, C02 and C25, on the real code built without the compiler extensions it can use',
  'All pairs of 380+ boundary words and all triples of 36 for every word operation; the operand pairs and histories of C01, the dividend/divisor pairs of C02 and the counts of C25. The sources are copied with the names of the extensions replaced, nothing else is changed. 32 bit targets are not covered.', asan=False, portable=True)
