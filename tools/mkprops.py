#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Geometry type equality, ordering and id encoding agree",
 "Two geometry types compare equal exactly when they describe the same shape in the same dimension (two 'none' types: same dimension). Equality is an equivalence, the ordering is a strict total order on these equivalence classes, so exactly one of a<b, a==b, b<a holds for any two types. Converting a type to its integral id and back, in a run-time or compile-time context, reproduces the same type, and equal ids arise exactly from identically constructed types.",
 ["inputs"], "every pair/triple of geometry types with dimension 0..30, any valid topology number, none or not",
 "The tests compare a handful of hand-picked types; transitivity, trichotomy and injectivity quantify over all pairs and triples of topology numbers.",
 ["dune/geometry/type.hh"],
 [("GeometryType::operator==/!=/<", "dune/geometry/type.hh"), ("GeometryType::Id / toId / GeometryType(Id)", "dune/geometry/type.hh")],
 ["GeometryType comparison operators", "GeometryType::toId", "constructor from Id"])

prop("C02", "Geometry type predicates and factories agree with the construction",
 "For every geometry type the shape predicates (vertex, line, triangle, quadrilateral, tetrahedron, pyramid, prism, hexahedron, simplex, cube, conical, prismatic, none) are true exactly for the types that were built by the corresponding chain of prism and cone constructions. The named factories and the conical/prismatic extension functions return the type of the documented shape and dimension, and the static geometry-type dispatch calls its function object with the type it was asked for.",
 ["inputs"], "every topology number in dimension 0..30 (predicates, extensions), every step of the construction",
 "Tests check the named constants in dimension up to 3; predicates are bit tricks on arbitrary topology numbers in any dimension.",
 ["dune/geometry/type.hh", "dune/geometry/typeindex.hh"],
 [("is* predicates", "dune/geometry/type.hh"), ("GeometryTypes::simplex/cube/none/conicalExtension/prismaticExtension", "dune/geometry/type.hh"), ("toGeometryTypeIdConstant", "dune/geometry/typeindex.hh")],
 ["GeometryType predicates", "GeometryTypes factories"])

prop("C03", "Geometry type indices are a consistent bijection",
 "For every dimension the per-dimension index maps the distinct geometry types (equal types to equal indices, the 'none' type included) one-to-one onto 0..size-1, and the inverse lookup returns the type an index came from. The global index does the same over all dimensions up to a bound, ordered by dimension, and both sizes equal the number of distinct types.",
 ["inputs"], "every geometry type with dimension 0..20 (local) and every pair of types (global), every valid index",
 "A bijection quantifies over all pairs of types; no test looks at index collisions or the inverse lookup beyond small dimensions.",
 ["dune/geometry/typeindex.hh"],
 [("LocalGeometryTypeIndex", "dune/geometry/typeindex.hh"), ("GlobalGeometryTypeIndex", "dune/geometry/typeindex.hh")],
 ["LocalGeometryTypeIndex::size/index/type", "GlobalGeometryTypeIndex::offset/size/index"])

prop("C04", "Reference element subentity numbering is consistent",
 "For every reference element of dimension 0 to 4 the numbers and types of subentities of every codimension are those of the polytope built by its prism/cone construction. Numbering is consistent across levels: the k-th subentity of the j-th subentity of a subentity is the one the subentity's own reference element predicts, types match along the way, and the enumeration range and its membership test agree with the counted size and the individual lookups. General, simplex and cube lookup and iteration over all reference elements deliver the same elements.",
 ["inputs", "configurations"], "every topology in dimension 0..4, every (codimension, number, relative codimension, relative number) tuple, chosen symbolically",
 "The tests spot-check counts and a few numberings; composition of numberings quantifies over all nested subentity chains.",
 ["dune/geometry/referenceelement.hh", "dune/geometry/referenceelements.hh", "dune/geometry/referenceelementimplementation.hh", "dune/geometry/referenceelementimplementation.cc"],
 [("Impl::size/subTopologyId/subTopologyNumbering", "dune/geometry/referenceelementimplementation.cc"), ("SubEntityInfo", "dune/geometry/referenceelementimplementation.hh"), ("ReferenceElementContainer", "dune/geometry/referenceelements.hh")],
 ["ReferenceElement::size/subEntity/subEntities/type", "ReferenceElements::general/simplex/cube"])

prop("C05", "Reference element positions, embeddings, volumes and normals agree",
 "For every reference element of dimension 0 to 4 each subentity's position is the barycentre of its corners, and its embedding maps every local point to the affine combination of exactly those corners, so nested embeddings agree. The volume is the exact volume of the polytope. The integration outer normal of each facet is orthogonal to the facet, points out of the element, and has length equal to the facet's integration element, so that the divergence theorem holds for every linear vector field.",
 ["inputs", "configurations"], "every topology in dimension 0..4, every subentity, every local coordinate (real), every linear vector field",
 "Tests evaluate a few dimensions up to 3 and single points; the embedding and divergence statements quantify over all real coordinates and fields.",
 ["dune/geometry/referenceelementimplementation.hh", "dune/geometry/referenceelementimplementation.cc", "dune/geometry/affinegeometry.hh"],
 [("referenceCorners/referenceOrigins/referenceEmbeddings/referenceIntegrationOuterNormals", "dune/geometry/referenceelementimplementation.hh"), ("ReferenceElementImplementation::initialize", "dune/geometry/referenceelementimplementation.hh")],
 ["ReferenceElement::position/geometry/volume/integrationOuterNormal"])

prop("C06", "Inside test equals membership in the reference polytope",
 "For every reference element of dimension 1 to 4 the inside test accepts every point of the closed polytope spanned by its corners. It rejects every point farther than the documented round-off tolerance (well below 1e-10 for double and 1e-4 for float coordinates) outside that polytope.",
 ["inputs"], "every real point, every topology in dimension 1..4, double and float coordinates",
 "Tests probe a few points inside and a few outside; membership quantifies over the whole space and the boundary.",
 ["dune/geometry/referenceelementimplementation.hh", "dune/geometry/referenceelement.hh"],
 [("Impl::checkInside", "dune/geometry/referenceelementimplementation.hh")],
 ["ReferenceElement::checkInside"])

prop("C07", "Affine geometry: map, Jacobian, inverse and volume agree",
 "An affine geometry built from a reference element (or type), an origin and a transposed Jacobian, or from the corners of a simplex, maps every reference point by exactly that affine map, and its corners and centre are the images of the reference corners and barycentre. The reported Jacobians are the derivative of the map, the inverse Jacobians are its (left pseudo-)inverse, integration element and volume are the induced volume scaling, and the inverse map undoes the map (and is the least-squares inverse if the world dimension is larger).",
 ["inputs", "configurations"], "every regular affine map with real entries, mydim 0..3, world dimension up to 4, every local and global point",
 "Tests use a few fixed matrices; the identities must hold for every regular Jacobian and every point.",
 ["dune/geometry/affinegeometry.hh", "dune/geometry/utility/defaultmatrixhelper.hh"],
 [("AffineGeometry", "dune/geometry/affinegeometry.hh"), ("FieldMatrixHelper", "dune/geometry/utility/defaultmatrixhelper.hh")],
 ["AffineGeometry interface"])

prop("C08", "Axis-aligned cube geometry equals the equivalent affine cube map",
 "An axis-aligned cube geometry given by lower and upper corner (full dimension), by lower and upper corner and a set of active axes (embedded), or by a single point, maps the reference cube affinely onto that box: corners, centre, global and local map, Jacobians and their inverses, integration element and volume are those of the affine map x -> lower + x*(upper-lower) on the active axes. This holds for every world dimension up to 4 and every choice of active axes, also after assignment.",
 ["inputs", "configurations"], "every box with real corners and positive extents, every set of active axes, mydim<=coorddim<=4, every point",
 "Tests instantiate unit boxes with a few axis sets; the statement quantifies over all boxes, axis sets and points.",
 ["dune/geometry/axisalignedcubegeometry.hh"],
 [("AxisAlignedCubeGeometry", "dune/geometry/axisalignedcubegeometry.hh")],
 ["AxisAlignedCubeGeometry interface"])

prop("C09", "Multilinear geometry interpolates its corners; Jacobian is its derivative",
 "A (cached or uncached) multilinear geometry maps each reference corner to the given corner, restricted to every subentity of the reference element it equals the multilinear geometry of that subentity's corners, and on simplices and cubes it is the (bi-/tri-)linear interpolation of the corners. The Jacobian and its transpose are the exact derivative of the map at every point of the element (on pyramids away from the apex).",
 ["inputs", "configurations"], "all real corner positions, every reference point, all topologies up to dimension 3, world dimension up to 3",
 "Tests use affine images and a few deformed elements; interpolation and derivative are polynomial identities in all corners and coordinates.",
 ["dune/geometry/multilineargeometry.hh"],
 [("MultiLinearGeometry::global", "dune/geometry/multilineargeometry.hh"), ("MultiLinearGeometry::jacobianTransposed", "dune/geometry/multilineargeometry.hh")],
 ["MultiLinearGeometry::corner/global/center/jacobian/jacobianTransposed"])

prop("C10", "Multilinear geometry: inverse map, inverse Jacobian, integration element",
 "At every point where the map is regular the inverse Jacobian (and its transpose) is the left inverse of the Jacobian and the integration element is the square root of the Gram determinant. Geometries whose map is affine report so and are inverted exactly by the inverse map; geometries with a genuinely non-affine map never claim to be affine. Whenever the inverse map of a non-affine element of the stated family returns, the returned point reproduces the requested global point up to the Newton tolerance, or is the documented not-invertible marker.",
 ["inputs", "configurations"], "all real corner positions with regular map in the stated families, every reference point",
 "Tests run a few affine shapes; the identities must hold for all corner positions, and the affine flag must be neither over- nor under-reported.",
 ["dune/geometry/multilineargeometry.hh", "dune/geometry/utility/defaultmatrixhelper.hh"],
 [("MultiLinearGeometry::local/affine/integrationElement/jacobianInverseTransposed", "dune/geometry/multilineargeometry.hh")],
 ["MultiLinearGeometry::affine/local/integrationElement/jacobianInverse/jacobianInverseTransposed/volume"])

prop("C11", "Cached multilinear geometry is history independent",
 "A cached multilinear geometry answers every query exactly as an uncached multilinear geometry of the same corners, no matter which queries were made before in which order, and no matter whether the object was copied or assigned in between.",
 ["histories", "inputs"], "every sequence of up to 3 interface calls (any methods, any points), then any query, for all corner positions of the supported shapes",
 "Tests call methods in one fixed order; stale-cache errors depend on the order of calls.",
 ["dune/geometry/multilineargeometry.hh"],
 [("CachedMultiLinearGeometry flags affine_/jacobianInverseComputed_/integrationElementComputed_", "dune/geometry/multilineargeometry.hh")],
 ["CachedMultiLinearGeometry interface vs MultiLinearGeometry"],
 [("cached Jacobian data", "values computed on first use for affine geometries", "dune/geometry/multilineargeometry.hh")])

prop("C12", "Mapped geometry is the composition of mapping and inner geometry",
 "A mapped geometry maps every point to mapping(inner(x)); corners, centre and type are those of the composition and its Jacobian is the product of the mapping's derivative and the inner geometry's Jacobian. Inverse Jacobian, integration element and affinity flag are those of that composed map, and the volume is the integral of the integration element: exact up to round-off for the stated families of polynomial integrands.",
 ["inputs", "configurations"], "every affine/bilinear/quadratic mapping with real coefficients from the stated families, every reference point",
 "Tests use identity, constant and one fixed mapping; the chain rule must hold for all mappings and points.",
 ["dune/geometry/mappedgeometry.hh"],
 [("MappedGeometry", "dune/geometry/mappedgeometry.hh")],
 ["MappedGeometry interface"])

prop("C13", "Local-finite-element geometry is the basis expansion of its coefficients",
 "A geometry parametrized by a local finite-element basis maps every reference point to the sum of its vertex coefficients times the basis functions, its Jacobian is the derivative of that map, and corners, centre, inverse Jacobians and integration element are derived from that map. With the (multi-)linear Lagrange basis it coincides with the multilinear geometry of the same corners in all these quantities.",
 ["inputs", "configurations"], "all real coefficient vectors, every reference point; P1/Q1/quadratic bases in dimension 1..3",
 "Tests compare on a few fixed shapes; the statement is an identity in all coefficients and coordinates.",
 ["dune/geometry/localfiniteelementgeometry.hh"],
 [("LocalFiniteElementGeometry", "dune/geometry/localfiniteelementgeometry.hh")],
 ["LocalFiniteElementGeometry interface"])

prop("C14", "Iterative inverse maps succeed or report failure",
 "The inverse map of parametrized geometries (mapped, finite-element based) returns only points whose image lies within the requested tolerance of the target and otherwise throws; it never returns silently wrong coordinates. For regular affine maps it always succeeds and returns the exact preimage, including when the target is the image of the starting point.",
 ["inputs", "configurations"], "every regular affine map and every target point, quadratic 1d maps with bounded iteration count",
 "Tests invert a few points of a few shapes; the contract concerns every target, including degenerate starts.",
 ["dune/geometry/utility/algorithms.hh", "dune/geometry/mappedgeometry.hh", "dune/geometry/localfiniteelementgeometry.hh"],
 [("Impl::gaussNewton", "dune/geometry/utility/algorithms.hh"), ("local() error handling", "dune/geometry/mappedgeometry.hh")],
 ["MappedGeometry::local", "LocalFiniteElementGeometry::local"])

prop("C15", "Refined subelements tile the reference element",
 "For every supported (element type, subelement type) pair and interval count the subelements produced by refinement cover the reference element, have disjoint interiors, are non-degenerate, and lie inside the element. Every subelement's geometry has the requested shape, and its reported coordinates are its centre.",
 ["inputs", "configurations"], "every point of the reference element (real), all supported pairs in dimension 1..3 and interval counts up to the stated bound",
 "Tests only check that single points lie inside; covering and non-overlap quantify over all points of the element.",
 ["dune/geometry/refinement/simplex.cc", "dune/geometry/refinement/hcube.cc", "dune/geometry/refinement/hcubetriangulation.cc", "dune/geometry/refinement/prismtriangulation.cc", "dune/geometry/refinement/pyramidtriangulation.cc"],
 [("Kuhn triangulation", "dune/geometry/refinement/simplex.cc"), ("element iterators", "dune/geometry/refinement/*.cc")],
 ["StaticRefinement element iterator geometry()/coords()"])

prop("C16", "Refined vertices and subelements are numbered consistently",
 "For every supported refinement the vertex and element iterators visit exactly the advertised number of entities, with consecutive indices starting at 0; vertices lie inside the element and, if the refinement keeps the shape, are pairwise distinct. The vertex indices of a subelement name exactly the vertices at its corners, and each vertex's geometry is the point given by its coordinates.",
 ["inputs", "configurations"], "all supported pairs in dimension 1..3, interval counts up to the stated bound, every (symbolically chosen) element and vertex",
 "Tests never relate vertex indices to coordinates; the relation quantifies over all elements, vertices and interval counts.",
 ["dune/geometry/refinement/base.cc", "dune/geometry/refinement/simplex.cc", "dune/geometry/refinement/hcube.cc", "dune/geometry/refinement/hcubetriangulation.cc", "dune/geometry/refinement/prismtriangulation.cc", "dune/geometry/refinement/pyramidtriangulation.cc"],
 [("pointIndex / vertexIndices", "dune/geometry/refinement/simplex.cc"), ("idx2coord/coord2idx", "dune/geometry/refinement/hcube.cc")],
 ["StaticRefinement nVertices/nElements/vBegin/vEnd/eBegin/eEnd and iterator methods"])

prop("C17", "Virtual refinement mirrors static refinement",
 "The run-time selected refinement of an element type into a subelement type yields the same counts, indices, coordinates and vertex indices as the corresponding compile-time refinement, for every interval count. Its iterators are values: copying, assigning (also to themselves) and advancing one never affects another. Requests for unsupported pairs of types are rejected with an exception.",
 ["histories", "inputs", "configurations"], "every pair of geometry types in dimension 1..3, interval counts up to the stated bound, every sequence of copy/assign/advance of the stated length",
 "Tests only iterate forward over a few supported pairs; the rest is about all pairs and all iterator histories.",
 ["dune/geometry/virtualrefinement.hh", "dune/geometry/virtualrefinement.cc"],
 [("VirtualRefinementIterator clone semantics", "dune/geometry/virtualrefinement.cc"), ("RefinementBuilder::build", "dune/geometry/virtualrefinement.cc")],
 ["buildRefinement", "VirtualRefinement interface"])

prop("C18", "Quadrature rules integrate all polynomials up to their order",
 "For every geometry type in dimension 0 to 3 and every available rule type and order, the rule integrates every polynomial up to its order exactly up to round-off over the reference element (one-dimensional Jacobi rules: with their weight function; Jacobi rules in several dimensions: no such claim). All points lie inside the reference element, the weights of the other families sum up to its volume, and Lobatto and Radau rules contain the end points they promise.",
 ["inputs", "configurations"], "every polynomial with coefficients bounded by 1, every order up to the stated bound (1d: all tabulated orders), all types in dimension 0..3",
 "Tests integrate a fixed set of monomials of each order with loose tolerances; the statement covers all polynomials of every total degree up to the order.",
 ["dune/geometry/quadraturerules.hh", "dune/geometry/quadraturerules/*"],
 [("tabulated 1d rules", "dune/geometry/quadraturerules/*.hh"), ("TensorProductQuadratureRule", "dune/geometry/quadraturerules/tensorproductquadrature.hh"), ("SimplexQuadraturePoints", "dune/geometry/quadraturerules/simplexquadrature.hh")],
 ["QuadratureRules::rule"])

prop("C19", "Quadrature requests are honoured or rejected",
 "Requesting a rule of order p for a geometry type, for every p up to the advertised maximal order, returns a rule for exactly that geometry type whose order is at least p and whose points lie inside that reference element; negative orders and orders beyond the advertised maximum are rejected with an exception. Selecting the domain by basic shape is equivalent to selecting it by geometry type.",
 ["inputs"], "every order (symbolic integer) 0..maximum and beyond, all types in dimension 0..3, all tabulated rule families",
 "Tests request orders within range only; the out-of-range and boundary orders and the selection logic are never queried.",
 ["dune/geometry/quadraturerules.hh"],
 [("QuadratureRules::_rule / rule / maxOrder", "dune/geometry/quadraturerules.hh"), ("QuadratureRuleFactory", "dune/geometry/quadraturerules.hh")],
 ["QuadratureRules::rule/maxOrder", "QuadratureRule::order/type"])

prop("C20", "Quadrature rule cache is history independent",
 "The rule returned for a (type, order, family) request is the same object with the same contents every time, and its contents do not depend on which other rules were requested before or in which order.",
 ["histories"], "every pair of (type, order, family) requests in dimension 1..3 within the stated order bound, in every order",
 "Tests request each rule once in one order; cache aliasing shows only for specific request histories.",
 ["dune/geometry/quadraturerules.hh"],
 [("nested once-initialised caches", "dune/geometry/quadraturerules.hh")],
 ["QuadratureRules::rule"],
 [("quadrature cache", "per family, type index and order: once flag and rule", "dune/geometry/quadraturerules.hh")])

prop("C21", "Composite quadrature keeps the order of its base rule",
 "A composite rule built from a simplex rule of order p and a refinement into n intervals (or levels) has (number of subelements)*(number of base points) points inside the element, positive total weight equal to the element volume, and integrates every polynomial of degree up to p exactly up to round-off, as well as every function that is such a polynomial on each subelement.",
 ["inputs", "configurations"], "every polynomial of degree <= p with bounded coefficients, lines, triangles and tetrahedra, interval counts up to the stated bound",
 "No stable test checks composite rules beyond a few constants.",
 ["dune/geometry/quadraturerules/compositequadraturerule.hh"],
 [("CompositeQuadratureRule", "dune/geometry/quadraturerules/compositequadraturerule.hh")],
 ["CompositeQuadratureRule"])

prop("C22", "Vertex orderings are reduced consistently",
 "Reducing a list of distinct vertex numbers yields the permutation of 0..n-1 that has the same relative order. The vertex order of an entity lists, for each subentity, the global numbers of that subentity's corners in reference-element order, reduced the same way, and its iterators behave as random-access iterators over exactly those numbers.",
 ["inputs"], "every assignment of distinct vertex numbers (symbolic integers) to the corners of every element up to dimension 3, every subentity, every iterator offset",
 "No test covers vertex orders; the statement quantifies over all numberings.",
 ["dune/geometry/generalvertexorder.hh"],
 [("reduceOrder", "dune/geometry/generalvertexorder.hh"), ("GeneralVertexOrder::begin/end/getReduced", "dune/geometry/generalvertexorder.hh")],
 ["reduceOrder", "GeneralVertexOrder"])

prop("C23", "Vertex count determines the geometry type",
 "For every dimension 0 to 3 and every number of vertices, the type deduced from dimension and vertex count is the unique standard shape of that dimension with that many corners, and if no such shape exists in dimension 2 and 3 the request is rejected with an exception.",
 ["inputs"], "every (symbolic) vertex count and dimension",
 "The test feeds the valid counts; rejection must hold for all others.",
 ["dune/geometry/utility/typefromvertexcount.hh"],
 [("geometryTypeFromVertexCount", "dune/geometry/utility/typefromvertexcount.hh")],
 ["geometryTypeFromVertexCount"])

prop("C24", "Dense matrix helpers compute the (pseudo-)inverse they promise",
 "For every real matrix of full rank up to size 3x3 (and 1x2, 1x3, 2x3 and their transposes) the left and right pseudo-inverse helpers return the Moore-Penrose inverse and the square root of the Gram determinant, the solve helpers return the corresponding least-squares or minimum-norm solution, and the Cholesky factorisation reproduces its matrix; for rank-deficient input the checked solve reports failure instead of a result.",
 ["inputs", "configurations"], "every full-rank matrix with real entries of the listed sizes (exact-arithmetic semantics), every right-hand side",
 "Tests reach the helpers through a few fixed Jacobians; the identities must hold for all matrices.",
 ["dune/geometry/utility/defaultmatrixhelper.hh"],
 [("FieldMatrixHelper", "dune/geometry/utility/defaultmatrixhelper.hh")],
 ["Impl::FieldMatrixHelper static functions"])

prop("C25", "Topology factories dispatch on the requested geometry type",
 "A topology factory creates, for every geometry type of its dimension, exactly the object its user-defined creation function makes for that type, for run-time and compile-time types alike. The singleton variant returns the same object for repeated requests with the same key and type and different objects for different keys or types.",
 ["inputs", "histories"], "every topology number in dimension 0..3, every pair of requests and keys",
 "Tests use the factories indirectly for one key; the dispatch must be right for every type and key pair.",
 ["dune/geometry/topologyfactory.hh"],
 [("TopologyFactory::create", "dune/geometry/topologyfactory.hh"), ("TopologySingletonFactory", "dune/geometry/topologyfactory.hh")],
 ["TopologyFactory::create/release", "TopologySingletonFactory::create"])

prop("C26", "Concurrent first use of rules, reference elements and refinements is safe",
 "Threads that concurrently request the same or different quadrature rules, reference elements or virtual refinements for the first time all obtain fully initialised, identical objects.",
 ["schedules"], "every interleaving of any number of threads",
 "Tests are single-threaded.",
 ["dune/geometry/quadraturerules.hh", "dune/geometry/referenceelements.hh", "dune/geometry/virtualrefinement.cc"],
 [("std::call_once / function-local statics", "dune/geometry/quadraturerules.hh")],
 ["QuadratureRules::rule", "ReferenceElements::general", "buildRefinement"])

prop("C27", "Floating-point results stay within round-off of the exact result",
 "For well-conditioned input the results of affine, axis-aligned and multilinear mappings (points, Jacobians, inverses, integration elements, volumes), the positions and volumes of reference elements and the coordinates of refined vertices, computed in floating point, differ from the exact real-number result only by a small multiple of the machine precision.",
 ["inputs"], "every floating-point input within a box of well-conditioned values",
 "Tests check single inputs.",
 ["dune/geometry/multilineargeometry.hh", "dune/geometry/affinegeometry.hh", "dune/geometry/utility/defaultmatrixhelper.hh"],
 [("direct evaluation order", "dune/geometry/*.hh")],
 ["all geometry interfaces"])

prop("C28", "Python bindings expose the same values as the C++ interface",
 "The functions that the bindings register with pybind11 for geometry types, reference elements, quadrature rules and multilinear geometries return the same counts, types, coordinates, weights and matrices as the C++ interface, in every overload; arguments out of range are rejected with a value error; the string of a geometry type gives the type back, and malformed descriptions are rejected.",
 ["inputs", "configurations"], "every exported class and method; every geometry type, codimension and index within the bounds of the check",
 "Python tests evaluate a few objects and no geometry class at all.",
 ["dune/python/geometry/*.hh", "python/dune/geometry/_geometry.cc"],
 [("pybind11 registration", "dune/python/geometry/*.hh")],
 ["dune.geometry Python module"])

prop("C29", "Printed geometry types name the type",
 "Writing a geometry type to a stream appends '(simplex, d)', '(cube, d)', '(pyramid, 3)', '(prism, 3)', '(none, d)' or '(other [id], d)' according to its shape and dimension and returns the stream; types that differ have different texts.",
 ["inputs"], "every geometry type and every pair of types within the bounds of the check",
 "No test looks at the printed text.",
 ["dune/geometry/type.hh"],
 [("operator<<(std::ostream&, const GeometryType&)", "dune/geometry/type.hh")],
 ["text of a string stream"])

prop("C30", "Geometries are values: copies are equal and independent",
 "A copied, moved, assigned or swapped geometry (affine, axis-aligned, multilinear, cached multilinear, finite-element and mapped) gives the same type, corners, center, map, Jacobian, inverse and integration element as a freshly constructed one from the same data, whether or not caches were filled before, and later changes or the destruction of the source do not change it.",
 ["inputs", "histories"], "all data within the bounds, nine ways of copying, with and without filled caches",
 "Tests copy geometries at most by accident and never look at the copy after the source has changed.",
 ["dune/geometry/affinegeometry.hh", "dune/geometry/axisalignedcubegeometry.hh", "dune/geometry/multilineargeometry.hh", "dune/geometry/localfiniteelementgeometry.hh", "dune/geometry/mappedgeometry.hh"],
 [("copy and move operations", "dune/geometry/*geometry.hh"), ("caches of jacobians and affinity", "dune/geometry/multilineargeometry.hh")],
 ["copy construction", "assignment", "std::swap", "std::vector of geometries"])

prop("C31", "Python helpers honour requests regardless of history",
 "quadratureRule, quadratureRules and referenceElement return the object of exactly the requested type (and order), whether given by type or by entity and whatever was requested before; modules of a dimension are taken from the compiled module if it has them and generated under distinct names otherwise; integrate and apply give the sum over the points of value times integration element times weight for numbers and vectors, on entities and on geometries; quadpy rules belong to the requested shape and scheme.",
 ["inputs", "histories"], "all types, orders, histories and values within the bounds of the check",
 "The Python tests request a few rules and elements and never integrate.",
 ["python/dune/geometry/*.py"],
 [("caches of rules and elements", "python/dune/geometry/__init__.py"), ("integration", "python/dune/geometry/__init__.py"), ("quadpy rules", "python/dune/geometry/quadpy.py")],
 ["dune.geometry Python module"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
