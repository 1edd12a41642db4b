CHECKS = {}
CHECKS["C01"] = dict(src=["c01.cc"])
CHECKS["C02"] = dict(src=["c02.cc"])
CHECKS["C03"] = dict(src=["c03.cc"])
CHECKS["C24"] = dict(src=["c24.cc"])
CHECKS["C07"] = dict(src=["c07.cc"])
CHECKS["C08"] = dict(src=["c08.cc"])
CHECKS["C09"] = dict(src=["c09.cc"])
CHECKS["C10"] = dict(src=["c10.cc"])
CHECKS["C11"] = dict(src=["c11.cc"])
CHECKS["C12"] = dict(src=["c12.cc"], variants=[[], ["-DVOLUME"]])
CHECKS["C13"] = dict(src=["c13.cc"], variants=[[], ["-DVOLUME"]])
CHECKS["C14"] = dict(src=["c14.cc"])
CHECKS["C15"] = dict(src=["c15.cc"])
CHECKS["C16"] = dict(src=["c16.cc"])
CHECKS["C17"] = dict(src=["c17.cc"])
CHECKS["C18"] = dict(src=["c18.cc"], opts=dict(ieee=True, maxsteps=60_000_000))
CHECKS["C04"] = dict(src=["c04.cc"])
CHECKS["C05"] = dict(src=["c05.cc"])
CHECKS["C06"] = dict(src=["c06.cc"], variants=[[], ["-DCT=float"]])
CHECKS["C22"] = dict(src=["c22.cc"])
CHECKS["C23"] = dict(src=["c23.cc"])
CHECKS["C25"] = dict(src=["c25.cc"])
CHECKS["C19"] = dict(src=["c19.cc"], opts=dict(ieee=True, maxsteps=60_000_000, maxconc=200))
CHECKS["C20"] = dict(src=["c20.cc"], opts=dict(ieee=True, maxsteps=60_000_000))
CHECKS["C21"] = dict(src=["c21.cc"], opts=dict(ieee=True, maxsteps=60_000_000))

CHECKS["C26"] = dict(src=["c26.cc"], opts=dict(ieee=True, maxsteps=60_000_000))
CHECKS["C28"] = dict(src=["c28.cc"], opts=dict(ieee=True, maxsteps=60_000_000))
CHECKS["C29"] = dict(src=["c29.cc"])
CHECKS["C30"] = dict(src=["c30.cc"])
CHECKS["C27"] = dict(src=["c27.cc"], opts=dict(rounding=True))

# not a property: exercises the engine
CHECKS["SELF"] = dict(src=["selftest.cc"])


def about(id, quick, outside, thorough=None, assumptions=(), note=""):
    c = CHECKS[id]
    c["bounds"] = dict(quick=quick, thorough=thorough or quick)
    c["outside"] = outside
    c["assumptions"] = list(assumptions)
    c["note"] = note


about("C01", "dimension 0..30, every topology number below 2^dimension, none flag free, all pairs and triples (bit-vectors); conversion to a constant: dimension 0..4",
      "dimensions above 30 and topology numbers that no construction produces")
about("C02", "dimension 0..30, every topology number, every step index (bit-vectors); static dispatch: dimension 0..5",
      "isConical/isPrismatic of a vertex (the code shifts by a negative amount there); dimensions above 30")
about("C03", "dimension 0..29 (global size 0..28), every topology number, all pairs of types, every index",
      "dimensions whose counts overflow int")
about("C04", "all topologies of dimension 0..4; codimension forked, subentity numbers symbolic; chains of two sub-indices up to dimension 3",
      "dimension 5 and higher", "as quick, chains also in dimension 4",
      assumptions=["oracle: face lattice built independently from the prism/cone construction (harness/refmodel.hh)"])
about("C05", "all topologies of dimension 0..4, every subentity, local coordinates in [-100,100], vector fields with coefficients in [-10,10]",
      "dimension 5 and higher; float coordinates")
about("C06", "all topologies of dimension 1..4; accept: every convex combination of the corners; reject: every real point farther outside than the tolerance; double and float",
      "points within the tolerance band outside of the element (either answer is allowed)",
      assumptions=["float: literals have their float values, the arithmetic is exact"])
about("C07", "mydim 0..3 with world dimension up to 4 (3 for mydim 3), Jacobian entries in [-50,50] with positive Gram determinant, every point; mydim 4 in world dimension 4 with a bidiagonal Jacobian",
      "rank-deficient Jacobians (reported separately by C24)", "as quick plus mydim 3 in world dimension 4 with a triangular Jacobian")
about("C08", "mydim<=world dimension<=4, every set of active axes, lower corner in [-50,50], extents in (0,50], every point; construction and assignment",
      "boxes with zero or negative extents", "as quick plus world dimension 5")
about("C09", "all topologies up to dimension 3, world dimension up to 3, corners in [-10,10], every point of the element; pyramids up to height 1-1e-3",
      "derivatives at the apex of a pyramid (not differentiable there); dimension 4")
about("C10", "all shapes up to dimension 3; Jacobian identities at every point with positive leading minors; affine flag for every perturbation of one corner by at least 1e-2; "
      "inverse map: affine geometries with symbolic corners, Newton iteration on a one-parameter family of distortions",
      "points where the Jacobian is singular; convergence of Newton's method for arbitrary distorted elements; corners that are off affine by less than the tolerance")
about("C11", "histories of up to two calls (of nine kinds, copies and assignments among them) before the query, six queries; lines, triangles, quadrilaterals (one call for tetrahedra, hexahedra)",
      "longer histories", "up to three calls, also flat hexahedra and prisms")
about("C12", "mappings with polynomial components of degree up to two and symbolic coefficients over affine, cube and bilinear inner geometries, mydim 1..3, world 1..3; "
      "volume: a stated family of polynomial Jacobian determinants", "mappings that are not polynomial; concave volume integrands that need the highest quadrature order")
about("C13", "first-order bases on all shapes and second-order bases on simplices, mydim 1..3, world 1..3, coefficients in [-10,10]; affine flag for perturbations of at least 1e-2",
      "bases of order three and higher")
about("C14", "Gauss-Newton iteration on affine maps with symbolic matrices (rank-deficient ones included) from symbolic or default starts, 1..2 iterations; quadratic maps with one step",
      "iterations beyond two steps with symbolic data; rounding-induced stagnation",
      assumptions=["square roots are exact"])
about("C15", "line up to 8, triangle and quadrilateral up to 5, quadrilateral in triangles up to 4, tetrahedron and hexahedron up to 3, hexahedron/prism/pyramid in tetrahedra up to 2 intervals; every real point",
      "more intervals; dimension 4", "triangles 9, quadrilaterals 9, tetrahedra 4, hexahedra 4, prism and pyramid 4 intervals")
about("C16", "line up to 8 intervals, two dimensions up to 6, three dimensions up to 4 (3 for tetrahedra from other shapes); levels and intervals",
      "more intervals", "three dimensions up to 6 intervals")
about("C17", "every pair of topologies (bit 0 included) up to dimension 3, intervals up to 6/4/2 in dimension 1/2/3; iterator histories of up to three copy/assign/advance operations on three iterators",
      "longer histories", "dimension 3 up to 4 intervals, histories of up to four operations")
about("C18", "line: every order of every family (Jacobi n up to 60); dimension 2: orders 0..14; dimension 3: orders 0..7; dimension 4: orders 0..3; every polynomial of the order, coefficients in [-1,1]; the highest degree to order 40, 14 and 5",
      "GaussJacobi_n_0 above order 60 and on cones of dimension 4, whose points come from LAPACK at run time; exact integration by Jacobi families in several dimensions (they integrate against a weight)",
      "dimension 2 to order 24, dimension 3 to order 10, dimension 4 to order 5; the highest degree to order 61, 30 and 10",
      assumptions=["the literals in the tables have their compiled double values; sums over points are exact; tolerance 1e-12 per unit coefficient"])
about("C19", "every topology of dimension 1..3, every family, every int as order (forked into regions around the limits); names for the basic types",
      "GaussJacobi_n_0 above order 60 (LAPACK)")
about("C20", "pairs A,B,A of requests in dimension 0..3, triples in dimension 1, nested dimensions; every family, orders up to the table limits in dimension 1 (sampled by step in higher dimensions)",
      "longer histories; concurrent requests (C26)",
      assumptions=["the fresh rule to compare with is the one of a second cache (float), equal within 1e-5"])
about("C21", "line up to 8 intervals and order 9, triangle 4 and 5, tetrahedron 2 and 3, every polynomial; arbitrary two-orbit base rules with symbolic points and weights",
      "non-simplex base rules (rejected by assertion)", "triangle 8 intervals, tetrahedron 4")
about("C22", "reduceOrder on up to 6 arbitrary distinct 64-bit ids; vertex orders on all shapes up to dimension 3 with ids 0..63, every subentity",
      "equal ids; dimension 4")
about("C26", "two threads, every schedule; rules: dimension 1..3, all shapes, pairs of orders 0..3 and of four families on the line, pairs of shapes and dimensions with orders 1..2; "
      "reference elements of all shapes of dimension 0..3; virtual refinements of simplices and cubes; each kind against the others",
      "more than two threads at once; synchronisation other than once flags, local statics, mutexes and read-write locks; orders whose tables are larger",
      "orders 0..6 and 1..4, reference elements of any two dimensions",
      assumptions=["the program order of each thread does not depend on the other thread except through once-only regions"])
about("C27", "affine maps of dimension 1..3 (m <= n <= 3) on boxes of entries of size one to ten, their inverse, integration element and volume in dimension 1 and 2 for diagonally dominant Jacobians; axis-aligned cubes of dimension 1..3 with edges of at least 1/4; "
      "multilinear lines, triangles, quadrilaterals, tetrahedra, prisms and hexahedra with corners in [-10,10], points at least 1/8 away from the apex of cones; reference elements up to dimension 4; refined coordinates up to 20 intervals; double (and float for reference elements of dimension 3)",
      "pyramids; Newton's method; inverses of dimension 3; quadrature rules (C18 compares them with IEEE arithmetic); ill-conditioned input; branches are decided by exact values",
      assumptions=["round to nearest, no overflow or underflow", "a comparison of floating-point numbers has the result of the exact comparison"])
about("C23", "every dimension and vertex count (32-bit)", "nothing within the parameter types")
about("C24", "matrices up to 3x3, 2x4 and 4x2 with real entries of full rank; rank-deficient ones for the solves; Cholesky up to 4x4",
      "larger matrices; nearly singular matrices, where rounding decides")
about("C25", "every topology of dimension 0..4, symbolic keys; singleton histories of two requests (three in dimension 0 and 1)",
      "longer histories", "histories of three requests in every dimension")
about("C28", "geometry types of dimension 0..12 with symbolic topology; pairs of types up to dimension 6; names up to dimension 5; descriptions composed of four heads and four pieces; every reference element of dimension 0..3 with all methods, overloads and codimensions; "
      "arguments one and a million beyond either end; quadrature rules of dimension 1..3; multilinear geometries (m,w) = (1,1), (1,2), (2,2), (2,3) with symbolic corners and up to (3,3) with fixed ones",
      "pybind11 and CPython (conversion of arguments is modelled by a stand-in); the Python files of the module; quadpy rules; reference elements of dimension 4 (quick tier)",
      "as quick, with reference elements of dimension 4, names up to dimension 6 and descriptions with ten heads",
      assumptions=["pybind11 calls the first registered overload whose arguments convert"])
about("C29", "types 'none' and every topology of dimension 0..5, 33 types each of dimension 6 and 7; pairs of types up to dimension 4",
      "other character types; format flags of the stream", "dimensions up to 12")
about("C30", "affine geometries (m,w) up to (3,3), axis-aligned cubes up to (3,3), multilinear and cached multilinear geometries of every shape up to (3,3), finite-element and mapped geometries up to (2,3); nine ways to copy, move, assign, swap and store, with and without filled caches; three symbolic data and a symbolic point",
      "corner storages that refer to foreign memory; inverses of dimension 3 and of parametrised geometries")
CHECKS["C31"] = dict(python="harness/c31.py")
about("C31", "two requests of types of dimension 0..4 (three of dimension 2 and 3, reference elements also of dimension 1) with symbolic types and orders 0..60, given by type or by entity; modules of dimension 0..6, compiled or generated; integrals with up to three points of dimension 1..3, numbers or up to two components, all values symbolic; quadpy rules of five shapes",
      "the compiled module, the generator and quadpy (replaced by stand-ins); rounding; generation of code", "as quick, with histories of four requests",
      assumptions=["numbers are exact", "equal geometry types have equal hashes (C28)", "numpy computes sums and products of objects by their operators"])
