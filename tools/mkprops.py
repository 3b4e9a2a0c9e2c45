"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name','meaning','where'),s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
B='blmath/'; N=B+'numerics/'; G=B+'geometry/'; T=G+'transform/'; R=G+'primitives/'; L=N+'linalg/'

p('C01','Vector decomposition, normalization and stacking',
 'For every finite nonzero vector, and every stack of them, normalizing gives unit length in the same direction, magnitude is the Euclidean length, and projecting onto / rejecting from any nonzero vector (normalized or not) yields a parallel part and a perpendicular part that add back to the vector, the scalar projection being the signed length of the parallel part. Rejecting a coordinate axis zeroes (or, squashed, drops) exactly that component and returns a new array; the six named axis directions are always the unit vectors along those axes, whatever became of earlier ones. A stack gives exactly the row-by-row results, and inputs that are neither a vector nor a stack are refused with ValueError.',
 ['inputs'],'all finite vectors / stacks of moderate magnitude (1e-6..1e6), any stack height, any axis',
 'The tests check a couple of hand-picked vectors in 3-space; scale, stack height, dimension and axis are never varied.',
 [N+'vector_shortcuts.py'],[('normalize/sproj/proj/reject/reject_axis/magnitude',N+'vector_shortcuts.py')],observe=['return values of the vx functions'])
p('C02','Angles and near-zero / near-collinear tests',
 'The angle between two nonzero 3-vectors is the true angle in degrees in [0, 180], symmetric and independent of their lengths, and is defined even for exactly parallel or opposite vectors. The signed angle has that size and is non-negative exactly when the cross product v1 x v2 does not point against the look vector (collinear vectors count as positive). The near-zero and near-collinear predicates answer exactly "every component / the cross product norm is within the given absolute tolerance".',
 ['inputs'],'all nonzero vector pairs and look directions, all tolerances',
 'Tests use two or three exact right-angle-like inputs; parallel vectors with rounding beyond 1, scale invariance, the sign rule and custom tolerances are not sampled.',
 [N+'vector_shortcuts.py'],[('angle/signed_angle clamp and sign rule',N+'vector_shortcuts.py'),('almost_zero/almost_collinear',N+'vector_shortcuts.py')])
p('C03','Composite transform equals step-by-step application and inverts',
 'After any sequence of appended steps (scale, unit conversion, translation, reorientation, rotation, arbitrary 3x3 or 4x4 matrices) the composite moves points exactly as applying the steps one after another in order, for the whole stack or any index range; the matrix it reports does the same in homogeneous coordinates; with no steps it is the identity. Reverse mode undoes the same range (with the reverse matrix given with a step, when one was given), so forward then reverse (and reverse then forward) returns the original points. Each appended step reports its position, later appends never change what earlier ranges do, non-positive scale factors are refused with ValueError and leave the stack unchanged. A 3x3 matrix embedded in a 4x4 one moves points alike and is recovered from it; other shapes are refused with ValueError.',
 ['histories','inputs'],'all finite sequences of appends interleaved with queries, all ranges, all point sets',
 'Tests exercise one- or two-step stacks with fixed numbers; three of them cannot run here; ranges and long mixed stacks are not explored.',
 [T+'composite.py',N+'vector_shortcuts.py'],[('matrix_for product order',T+'composite.py'),('append_transform3/4, scale, translate, reorient, rotate, convert_units',T+'composite.py'),('pad_with_ones/unpad',N+'vector_shortcuts.py')],
 state=[('transforms','ordered (forward, reverse) pairs',T+'composite.py')])
p('C04','Named reference frames convert consistently',
 'With any sequence of transforms and tags, points assigned in one named frame read back in another frame as the transforms between the two tags applied forward, or undone backward, so that the route through intermediate frames and the round trip do not matter and reading the same frame returns the points. Tags may be shared, moved or set at any time and always denote the state when last tagged; new steps never change conversions between existing tags. Objects with vertices come back as copies with only the vertices replaced, the original untouched; unknown frames are refused with an error, and reading before any assignment with ValueError.',
 ['histories','inputs'],'all sequences of transform / tag / assign / read operations',
 'Tests tag three frames once, in order; re-tagging, backward reads, interleaving and error paths are untested.',
 [T+'coordinate_manager.py',T+'composite.py'],[('do_transform',T+'coordinate_manager.py'),('tag_as',T+'coordinate_manager.py')],
 state=[('tags_to_indices','frame name -> number of steps when tagged',T+'coordinate_manager.py')])
p('C05','Rotation builders give the right proper rotation',
 'The up/look rotation is a proper rotation that sends up to +y and look into the y-z plane with positive z, whatever the lengths, refusing zero or collinear directions with ValueError. Euler rotations equal the product of the named axis rotations applied in the given order, in degrees or radians. The rotation-vector conversion is the right-handed rotation by |r| about r, the matrix-to-vector conversion inverts it for angles up to 180 degrees (for a matrix that is a rotation only approximately, it gives the nearest rotation), the reported Jacobians match the derivative, and rotation matrices pass through the coercion unchanged.',
 ['inputs'],'all nonzero non-collinear up/look pairs, all angle triples and axis orders, all rotation vectors incl. near 0 and near 180 degrees',
 'Tests sample multiples of 45 degrees about coordinate axes ("really should write some tests for composition"); the rotation-vector code has no runnable test here.',
 [T+'rotation.py',T+'rodrigues.py'],[('rotation_from_up_and_look',T+'rotation.py'),('euler',T+'rotation.py'),('rodrigues/as_rotation_matrix',T+'rodrigues.py')])
p('C06','Rigid alignment recovers the motion and is optimal',
 'If one point set is a rigid motion of another that is not collinear (including coplanar sets and three points, points as rows or as columns), the found rotation and translation reproduce it. For arbitrary (noisy) correspondences every rotation returned is proper and no other proper rigid motion has a smaller squared error; the transform finder may refuse, with ValueError, only noisy data whose best orthogonal fit is a reflection. The rotation-only finder does the same without translation, aligns a single vector onto another, and with scaling multiplies the rotation by the ratio of the sizes of the two sets.',
 ['inputs'],'all point sets of 3..N points in any position, all rigid motions, noise levels, single-vector alignment',
 'There is no test of this module at all.',
 [T+'rigid_transform.py'],[('SVD solution and reflection handling',T+'rigid_transform.py'),('allow_scaling',T+'rigid_transform.py')])
p('C07','Plane equation, side, distance and projection agree',
 'For every plane built from a point and a normal, three points, two points and a vector, or a best fit, the normal is unit length with the documented orientation and the defining points lie on it; the fitted plane passes through the centroid and minimizes the squared distances. Signed distance is the coordinate along the normal, distance is its absolute value, sign and points-in-front (inverted or not, as points or indices) agree with it including points on the plane, the equation evaluates to it, the canonical point is the foot of the origin, and projecting a point moves it along the normal onto the plane. Flipping negates signed distances and keeps the plane and its reference point; a zero normal is refused with ValueError.',
 ['inputs'],'all planes and point sets of moderate scale',
 'Tests use three fixed planes and a handful of points; agreement among the views is never checked over inputs.',
 [R+'plane.py'],[('constructors',R+'plane.py'),('signed_distance/sign/points_in_front/project_point/canonical_point/equation/flipped',R+'plane.py')])
p('C08','Line and segment crossings of a plane are exact',
 'For a line not parallel to the plane the reported crossing lies on both the line and the plane; for a parallel line (direction exactly perpendicular to the normal) none is reported. A segment whose endpoints lie strictly on opposite sides gives the crossing between its endpoints; one whose endpoints lie strictly on the same side gives none. The stacked forms return, in order, the same points as the single forms, flag exactly the valid rows, and put NaN in the rows without a crossing.',
 ['inputs'],'all planes, lines and segments in general position, any number of rows, any mix of crossing / parallel / missing rows',
 'Four tests with one or two hand-picked lines each.',
 [R+'plane.py'],[('line_xsection(s), line_segment_xsection(s)',R+'plane.py')])
p('C09','Mesh cross sections are complete and correctly connected',
 'Cutting a manifold triangle mesh with a plane through none of its vertices yields polylines whose vertices are exactly the crossings of the mesh edges that straddle the plane, each once, joined exactly along the faces that straddle it, with one polyline per connected run of faces, closed exactly when the run closes on itself. The reported intersecting faces are exactly the straddling ones; a plane that misses the mesh gives nothing (or an empty polyline); the merged form holds the same vertices. With a neighborhood the single polyline returned is the component nearest to it on average, with the same shape and closedness as without.',
 ['inputs'],'all manifold triangle meshes with or without boundary, any number of components, any vertex / face numbering, all planes in general position',
 'Tests cut two boxes with axis planes; orientation, face order, vertex numbering, boundaries and many components are not varied.',
 [R+'plane.py'],[('mesh_xsections edge map, adjacency graph and path extraction',R+'plane.py'),('mesh_intersecting_faces',R+'plane.py')])
p('C10','Polyline edges and lengths always follow its vertices',
 'After any sequence of setting vertices, opening or closing, flipping, subdividing, copying and reindexing, the edges are exactly the consecutive pairs (plus last-to-first when closed), read-only, and segments, segment vectors, segment lengths, total length and serialized form all describe the current vertices; an empty polyline has no edges and zero length. Copies and reindexed polylines are independent: changing one never changes the other. Flipping reverses vertex order, reindexing a closed polyline rotates it so the chosen vertex is first with an edge map that matches the segments, and reindexing an open one is refused with ValueError.',
 ['histories','inputs'],'all sequences of mutating and reading operations on open and closed polylines of any size',
 'Tests check single fixed polylines after one operation; stale derived state after a longer history is exactly what they cannot see.',
 [R+'polyline.py',B+'util/decorators.py'],[('_update_edges on every set of v / closed',R+'polyline.py'),('setter_property',B+'util/decorators.py'),('copy/flip/reindexed',R+'polyline.py')],
 state=[('v','vertices',R+'polyline.py'),('e','derived edges',R+'polyline.py'),('closed','closedness',R+'polyline.py')])
p('C11','Subdivision preserves the curve and respects the length bound',
 'Subdividing a polyline by a maximum length keeps every original vertex in order at the reported indices, puts only equally spaced points on each original segment, leaves no piece longer than the maximum (up to rounding), uses the fewest equal pieces, keeps closedness and total length. Partitioning a segment gives the requested number of equally spaced points from the first endpoint towards the second, with or without the far endpoint (interior points only in the deprecated form), in any dimension, and filling a chain puts the given number of equal intervals in each segment, also where consecutive points coincide. Sample counts that are not integers, or below two, are refused with TypeError and ValueError.',
 ['inputs'],'all polylines (open/closed, repeated vertices), all positive length bounds, all dimensions and counts',
 'The four tests of subdivision proper cannot run on the installed numpy, and the rest use one segment with two or three counts.',
 [R+'polyline.py',G+'segment.py'],[('partition_by_length',R+'polyline.py'),('partition, partition_segment, partition_segment_old',G+'segment.py')])
p('C12','Cutting a polyline by a plane keeps exactly the front part',
 'For a polyline none of whose vertices lies on the plane, the intersection points are exactly one per edge whose ends are on opposite sides, each on both the plane and its edge, in edge order with the matching edge indices. Cutting an open polyline crossed once, or a closed one crossed twice, returns an open polyline that traverses exactly the part in front of the plane in the original direction, with every original front vertex kept, ending at the crossing points. Any other number of crossings (including none) is refused with ValueError, and the original is unchanged. An edge that meets the plane with exactly one end is reported with that end as its point, and an open polyline in front of the plane that touches it only with its first or last vertex is kept whole.',
 ['inputs'],'all open and closed polylines and planes in general position, any starting vertex, either orientation of the plane',
 'Two tests, one shape each; where the chain starts relative to the plane and which side is kept are not varied.',
 [R+'polyline.py',R+'plane.py'],[('intersect_plane',R+'polyline.py'),('_cut_by_plane_open/_closed, cut_by_plane',R+'polyline.py'),('polyline_xsection',R+'plane.py')])
p('C13','Line-line intersections are the common point',
 'For two non-parallel lines in the plane, each given by two points, the reported point lies on both; for exactly parallel or repeated lines with exactly representable coordinates NaNs are reported. For two lines in space that meet, the reported point is the common point, wherever on the lines the given points are and also when one of the given points is the intersection; parallel or identical lines without a shared given point give none.',
 ['inputs'],'all pairs of crossing lines, all choices of the defining points on them',
 'Tests use three examples whose directions happen to compare exactly equal after normalization.',
 [G+'segment.py'],[('line_intersect',G+'segment.py'),('line_intersect3 sign choice',G+'segment.py')])
p('C14','Extreme points and inflection points',
 'The apex of a point set along an axis is one of its points and no other lies further along the axis, whatever the axis length; the farthest point from a location is one of the points, reported with its index, and none is farther. Along a finely and uniformly sampled curve that is the graph of a smooth function over the span axis, the reported inflection points are sampled points next to every place in the interior where curvature changes sign, and nowhere in the interior where it does not come near zero, whatever the rigid placement of the curve.',
 ['inputs'],'all point sets, axes and locations; families of sampled curves with known inflections in any placement',
 'apex/farthest are tested on one point set each; inflection points are not tested at all.',
 [G+'apex.py',R+'polyline.py'],[('apex, farthest',G+'apex.py'),('inflection_points finite differences',G+'apex.py'),('Polyline.apex',R+'polyline.py')])
p('C15','Triangle coordinates and surface normals',
 'Barycentric coordinates of any point with respect to a non-degenerate triangle sum to one and reproduce the orthogonal projection of the point on the triangle plane, row by row for stacks; for a degenerate triangle they are finite and still sum to one. The surface normal of a triangle, or of every triangle in a stack, is perpendicular to its edges, right-handed with the vertex order, and unit length unless scaling is turned off, in which case its length is twice the area.',
 ['inputs'],'all triangles (incl. degenerate for the coordinates), all points, stacks of any height',
 'Barycentric coordinates have no test; normals are tested on a single tetrahedron.',
 [G+'barycentric.py',G+'surface_normals.py'],[('barycentric_coordinates_of_projection and zero-area guard',G+'barycentric.py'),('surface_normal',G+'surface_normals.py')])
p('C16','Convex hull of a planar curve',
 'For a planar or nearly planar curve with at least three non-collinear points, in any placement, the hull returned is a convex polygon made of vertices of the curve (at the reported indices, when asked) that, seen along the curve normal, contains every vertex of the curve, keeps the open/closed flag, and leaves the input unchanged. The normal may be given, of any length, or is estimated. In the flattening mode the returned points are those hull vertices projected onto the plane through the curve centroid perpendicular to the normal, in the original placement. Curves of at most one point come back as they are.',
 ['inputs'],'all planar / almost planar point sequences in any rigid placement, with or without a supplied normal, both modes',
 'Only the one-point and no-point cases are tested; the flattening mode and supplied normals do not even run on the pinned tree.',
 [G+'convexify.py',T+'rotation.py',T+'translation.py'],[('convexify_planar_curve axis drop',G+'convexify.py'),('convexify_and_flatten_planar_curve',G+'convexify.py'),('rotate_to_xz_plane, estimate_normal',T+'rotation.py'),('translation',T+'translation.py')])
p('C17','Boxes and solids measure what they enclose',
 'An axis-aligned box built from any origin and non-negative size reports minima, maxima, mid points, ranges, center, floor point, dimensions, volume and surface area that are consistent with those two, and negative sizes are refused with ValueError. Generated prisms, cubes and triangular prisms have the documented corners, form closed surfaces whose every edge is shared by two consistently outward-wound triangles, and enclose exactly the volume of the solid for positive sizes; the flattened form lists exactly the triangles of the indexed form.',
 ['inputs'],'all origins, sizes, base triangles and heights',
 'Neither module has a test.',
 [R+'box.py',G+'shapes.py'],[('Box properties',R+'box.py'),('create_* vertex and face tables',G+'shapes.py')])
p('C18','Unit conversion factors are exact and consistent',
 'Between any two units of the same kind the factor is the ratio of their definitions (SI / legal definitions as tabulated), factors compose and invert, aliases are interchangeable, and converting a value, a list, to a set of defaults or to a unit system all use that factor and report the target unit. Converting between different kinds, or when the stated kind does not match, is refused with ValueError, and unknown units are refused. The listings by kind partition all units, and the pretty form is the value in both unit systems rounded to the documented increment.',
 ['inputs'],'all pairs and triples of units, all values and rounding precisions, both unit systems',
 'About twenty fixed conversions are tested (one test cannot run here); the whole table, transitivity, and rejection of every mismatched pair are not.',
 [B+'units.py'],[('unit table',B+'units.py'),('factor/convert/convert_list/convert_to_default/convert_to_system_default/prettify',B+'units.py')],
 state=[('_units','unit -> (kind, factor)',B+'units.py')])
p('C19','Arithmetic and comparison on values respect units',
 'Adding, subtracting, comparing and dividing two values gives what the same operation gives after converting the right operand to the units of the left, bare numbers counting as already in those units, and the result carries the left units (none for a ratio); scaling, negation, absolute value, rounding and conversion act on the number and keep or change the units accordingly. Operations that would make no sense (product of two values, incompatible units, value as divisor of a number, modulo, power) raise instead of returning a number, and values built from None, non-numbers or unknown units are refused. Truth, float and int follow the number; equality and order are mutually consistent. After the number or the units of a value are set, everything read from it is that of the new number and units.',
 ['inputs'],'all pairs of values over all units incl. unitless, all operators, bare numbers and sequences',
 'Tests use 25 cm and one or two partners; truth testing and rounding of values are broken on Python 3 unnoticed.',
 [B+'value.py',B+'units.py'],[('operators and _comparable',B+'value.py'),('convert/__getattr__',B+'value.py'),('round/prettified',B+'value.py')])
p('C20','JSON encoding and decoding round-trips',
 'Any JSON document containing values at any depth, written to a string or a file and read back with this package, returns an equal structure in which every value has the same number, bit for bit, and the same units (or none); options for the layout written or for how numbers are read take effect. Annotated arrays and sparse matrices decode to the array or matrix with the stated data type, shape, entries and format, arrays defaulting to double precision; incomplete sparse annotations and ordinary dictionaries come back as plain dictionaries.',
 ['inputs'],'all nested documents of values, numbers, strings, lists, maps; all annotated arrays / sparse matrices, dtypes and formats',
 'Two flat documents and one literal are tested; arrays and sparse matrices never are.',
 [B+'util/json.py',B+'value.py'],[('decode_json object hook',B+'util/json.py'),('for_json/from_json',B+'value.py')])
p('C21','Numeric validation accepts and coerces exactly the valid input',
 'Coercing an array-like either raises ValueError or returns an array holding exactly the input values, with the requested data type and with a shape matching the requested one (transposed only when the shape as given does not match but its transpose does). None is passed through only when allowed; booleans, complex numbers, strings, NaN and infinities (without a requested type) are refused, also inside arrays of Python objects. The numeric predicates agree with that: true exactly for finite real non-boolean scalars, arrays (rectangular ones), or either, and emptiness is true exactly for None and zero-sized lists, tuples and arrays.',
 ['inputs'],'all array-likes of any nesting, dtype, shape and content, all shape patterns and option combinations',
 'About twenty literals are tested.',
 [N+'coercion.py',N+'predicates.py'],[('as_numeric_array shape and transpose rule',N+'coercion.py'),('isnumeric/isnumericscalar/isnumericarray/is_empty_arraylike',N+'predicates.py')])
p('C22','Elementwise number helpers',
 'Rounding to an increment gives the multiple of the increment nearest the value (exactly half-way, the even multiple, like Python\'s round); rounding a list rounds each number to the precision and keeps None in place. Safe division equals ordinary division wherever that is finite and the default value elsewhere, for any broadcastable arrays of at least one dimension; scaling to a range maps non-constant data affinely so minimum and maximum land on the range ends. Safe reshaping never copies (it returns a view of the same data or raises), freezing makes every listed array unwritable, and the Matlab-style helpers build the documented rows, columns, binary expansions and sparse matrices (duplicate entries summed).',
 ['inputs'],'all values and increments, all arrays incl. zeros and signed infinities from division, all shapes',
 'Five literals are tested for rounding, one array for division, none for the rest.',
 [N+'rounding.py',N+'operations.py',N+'numpy_ext.py',N+'matlab.py'],[('round_to/rounded_list',N+'rounding.py'),('zero_safe_divide/scale_to_range',N+'operations.py'),('np_reshape_safe/np_make_readonly',N+'numpy_ext.py'),('bsxfun/row/col/sparse',N+'matlab.py')])
p('C23','Sparse Cholesky factorization is correct and detects failure',
 'For every sparse symmetric positive definite matrix (any ordering of entries, any numeric type, any fill) the factorization returns a lower triangular L with positive diagonal and a permutation S with S\'AS = LL\' up to rounding, and reports success as zero. For a symmetric matrix that is not positive definite it reports a positive step k, and the k-1 columns returned factor the leading block of the permuted matrix. The input matrix is never changed.',
 ['inputs'],'all sparse symmetric matrices, definite or not, 1 to several hundred rows, sparse to dense (simplicial and supernodal paths)',
 'One test with one random definite matrix of one size and density; its companion cannot run here; indefinite input is untested (and was silently reported as success).',
 [L+'lchol.py',L+'cholmod.c'],[('lchol index widening and assembly',L+'lchol.py'),('cholmod_lchol_c analyze/factorize/trim',L+'cholmod.c')])
p('C24','The native factorization is memory safe and does not leak',
 'Whatever sparse matrix is passed to the factorization (definite or not, square or not, any numeric type, strided or unsorted storage, repeated calls in any order) the native code never reads or writes outside its buffers, never uses uninitialized or freed memory, never crashes the interpreter, and either returns arrays that own their data or raises. Memory in use does not grow with the number of calls.',
 ['inputs','histories'],'all call sequences over valid and hostile sparse inputs',
 'Tests call it once on a good matrix; the memory-leak test is commented out; no sanitizer is used.',
 [L+'cholmod.c',L+'lchol.py'],[('buffer sizes, copies, reference counts and frees in cholmod_lchol_c',L+'cholmod.c')],observe=['AddressSanitizer/UBSan reports','valgrind memcheck reports','allocator in-use bytes'])
p('C25','Orthonormalization and change of basis',
 'Orthogonalizing linearly independent rows, in any dimension, gives mutually perpendicular rows of the same shape whose first k rows span the same space as the first k inputs, the first row unchanged; orthonormalizing also makes exactly the requested rows (all by default) unit length and leaves the others orthogonal but unscaled. The change of basis between two bases is the matrix that takes coordinates in the second basis to coordinates in the first, so it composes, inverts and is the identity for equal bases; bases of different length are refused as a dimensionality error and exactly singular ones as a linear dependence error.',
 ['inputs'],'all well-conditioned row sets and bases, all dimensions, all index subsets',
 'Tests use a 2x2 and a 3x3 example (one fails here by rounding) and one pair of commuting rotations.',
 [L+'gram_schmidt.py',L+'isomorphism.py'],[('orthogonalize/orthonormalize',L+'gram_schmidt.py'),('isomorphism and its validation',L+'isomorphism.py')])
p('C26','Block-sparse products and conjugate-gradient solves',
 'Splitting a sparse matrix into sparse and dense row/column blocks, with automatic or given masks, is lossless: the blocks reassemble to the matrix, and products with vectors, matrices and the two Gram products equal those of the matrix. The linear operator view behaves like the matrix. The conjugate-gradient solvers return, for symmetric positive definite systems (the block solver also with empty rows and columns), a solution whose residual meets the stated tolerance.',
 ['inputs'],'all sparse matrices, square or not, with any pattern of dense rows and columns, all masks; all well-conditioned definite systems',
 'None of this has a test, and most of it did not run on the installed scipy.',
 [L+'static_block_sparse_matrix.py',L+'sparse_cg.py'],[('block splitting, matvec, MMT, linOp, conjGradSolve',L+'static_block_sparse_matrix.py'),('block_sparse_cg_solve',L+'sparse_cg.py')])
p('C27','Differentiable mesh normals and their Jacobians',
 'For any triangle mesh without degenerate faces (of any size, with faces of any integer type), the triangle normals are the right-handed unit normals of the faces (the scaled variant has the length of the edge cross product), and the vertex normals are the normalized sums of the cross products of the adjacent faces. The edges, cross products and normalizations they are built from equal their definitions, every Jacobian equals the derivative of the value, and everything follows when the vertices are changed.',
 ['inputs','histories'],'all meshes and all vertex updates',
 'There is no test of this module, and it cannot be imported here without a chumpy compatibility layer (supplied by the harness).',
 [B+'optimization/objectives/normals.py'],[('NormalizedNx3, VertNormals, TriNormals, TriNormalsScaled, TriEdges, CrossProduct: compute_r / compute_dr_wrt',B+'optimization/objectives/normals.py')])
p('C28','Computations are pure: inputs intact, results repeatable',
 'No computation changes the arrays, lists, matrices, planes, polylines or meshes it is given (only the documented mutating methods change their own object), so it also accepts read-only arrays. Repeating a call gives the identical result whatever other calls happened in between and even if the earlier result was modified by the caller (results that are views of the caller\'s own arrays, such as an extreme vertex, aside). The result does not depend on the memory layout of the input arrays (row or column order, strided or reversed views). Settings of the whole process (floating-point error handling, print options, random state, warning filters, environment, working directory) are left as they were.',
 ['histories','inputs'],'all public functions, all interleavings of calls, all memory layouts',
 'Tests check return values once on fresh contiguous arrays; input mutation, hidden state shared between calls and layout dependence are invisible to them.',
 [N+'vector_shortcuts.py',R+'plane.py',R+'polyline.py',G+'segment.py',G+'apex.py',G+'barycentric.py',G+'convexify.py',T+'rotation.py',T+'rigid_transform.py',T+'composite.py',L+'gram_schmidt.py',L+'isomorphism.py',L+'lchol.py',N+'operations.py',B+'units.py'],
 [('copies made before in-place updates','each function'),('basis vectors made anew on each access',N+'vector_shortcuts.py')])
p('C29','Console prompts return the entered number in the stated units',
 'Prompting for a number repeats until the user enters a valid number and returns exactly that number; an empty entry repeats too, unless empty entries are allowed, in which case nothing is returned. Prompting for a value shows the label and units and returns the entered number in those units, or nothing for an allowed empty entry.',
 ['inputs','histories'],'all sequences of console lines (numbers in any notation, garbage, empty lines)',
 'The module has no test.',
 [B+'console.py'],[('input_float/input_value',B+'console.py')])
p('C30','Calls made by several threads at once do not affect one another',
 'A call made while other threads make calls of their own, on arguments of their own or on shared arrays, planes, polylines, meshes, transforms and values that nobody changes meanwhile, gives the answer it gives alone and finishes, for every interleaving. Shared arguments and the settings of the whole process (warning filters, print options, random state, environment) come out as they were.',
 ['schedules','histories'],'all interleavings, at single bytecode instructions of blmath, of calls from two to four threads; all public functions',
 'No test starts a thread; module-level scratch data, last-call memories and settings changed for the time of a call go wrong only when a second thread runs in between.',
 [N+'predicates.py',N+'vector_shortcuts.py',R+'plane.py',R+'polyline.py',G+'segment.py',T+'composite.py',T+'coordinate_manager.py',T+'rodrigues.py',G+'barycentric.py',N+'operations.py',B+'units.py',B+'value.py'],
 [('numpy error state kept per thread',N+'predicates.py'),('basis vectors made anew on each access',N+'vector_shortcuts.py'),('no state at module level',B+'units.py')])
p('C31','Copies and pickles of objects are equal and independent',
 'Planes, polylines, boxes, values, transforms, coordinate managers and block matrices, after any history, can be copied and deep-copied and pickled with every protocol (as when handed to another process). The result has the same state and gives every computation the same answer; taking it changes nothing, and what later happens to a deep copy or unpickled object is not seen in the original, nor the other way round.',
 ['histories','inputs'],'all objects and their histories, all ways of copying, chained; all computations on the copies',
 'Tests copy one polyline with its own method; nothing is ever pickled or copied with the copy module.',
 [R+'plane.py',R+'polyline.py',R+'box.py',T+'composite.py',T+'coordinate_manager.py',B+'value.py',L+'static_block_sparse_matrix.py'],
 [('attribute lookup by tag',T+'coordinate_manager.py'),('attribute lookup by unit',B+'value.py'),('properties that write the instance dictionary',R+'polyline.py')])
p('C32','Repeated computations do not use up memory',
 'However many calls are made, on fresh arguments or on one long-lived object, what is kept once arguments and results are dropped does not grow with the number of calls (a memory of at most a few thousand entries aside): a service or a batch job can run for ever.',
 ['histories'],'all public functions, all lengths of history, all sequences of distinct arguments',
 'Tests make each call once or twice.',
 [N+'vector_shortcuts.py',R+'plane.py',R+'polyline.py',T+'composite.py',T+'coordinate_manager.py',G+'barycentric.py',L+'static_block_sparse_matrix.py',B+'units.py',B+'value.py',B+'util/json.py'],
 [('no memory of earlier calls','each module'),('transforms kept per object only when appended',T+'composite.py')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
