From da64ab9c65de25eb1ca50b96a55a1900411304f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:24 +0000
Subject: [PATCH 01/10] fix: compare the dimension of geometry types of type
 none

Two 'none' types of different dimension compared equal although the
documentation of GeometryType::none requires the same dimension. The
ordering distinguished them, so neither of a<b, b<a and a!=b was
consistent. Conversely the ordering looked at the (meaningless)
topology id of 'none' types that compare equal.
---
 dune/geometry/type.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..9a4138f 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,10 +376,9 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
+               && ( dim_ == other.dim_ )
                && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
+                    || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
                     )
                );
     }
@@ -395,6 +394,7 @@ namespace Dune
                || ( !( other.none_ < none_ )
                     && ( ( dim_ < other.dim_ )
                          || ( (other.dim_ == dim_)
+                              && !none_
                               && ((topologyId_ >> 1) < (other.topologyId_ >> 1) )
                               )
                          )
-- 
2.43.0


From 502605e98c40e65454a7a04a1ddeb0fe7264a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:48 +0000
Subject: [PATCH 02/10] fix: let the Gauss-Newton method accept a solution as
 initial guess

---
 dune/geometry/utility/algorithms.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..99fd2f3 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -71,6 +71,10 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   R resNorm0 = dy.two_norm();
   R resNorm = 0;
 
+  // the initial guess may already be a solution
+  if (resNorm0 < opts.absTol)
+    return GaussNewtonErrorCode::OK;
+
   for (int i = 0; i < opts.maxIt; ++i)
   {
     // Get descent direction dx: (J^T*J)dx = J^T*dy
-- 
2.43.0


From 890a451b4ce63acd1cf12520d42845bd2d8e7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:13 +0000
Subject: [PATCH 03/10] fix: let the geometry of a refined vertex be its point

---
 dune/geometry/refinement/hcube.cc                | 2 +-
 dune/geometry/refinement/pyramidtriangulation.cc | 2 +-
 dune/geometry/refinement/simplex.cc              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..87e7c15 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,7 +391,7 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
+        std::array<unsigned int,dimension> intCoords = (codimension == 0) ? cellCoord() : vertexCoord();
 
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..540dbf6 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,7 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From b2cec523d0ba7bc316e07c4bd485270be52b7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:13:49 +0000
Subject: [PATCH 04/10] fix: allow self assignment of virtual refinement
 iterators

---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..2ce388a 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *copy = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = copy;
     return *this;
   }
 
-- 
2.43.0


From 11eddf183c0da15c702a597d2dcad161c8a4850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:49 +0000
Subject: [PATCH 05/10] fix: compare different quadrature rules when computing
 the volume of curved geometries

---
 dune/geometry/localfiniteelementgeometry.hh | 4 +++-
 dune/geometry/mappedgeometry.hh             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..2b1940a 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -280,7 +280,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // consecutive orders may share their points, only odd orders give new ones
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..638b928 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -245,7 +245,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // consecutive orders may share their points, only odd orders give new ones
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
-- 
2.43.0


From b74cc38f37dd0495bc5ed2831053ec76309dadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:49 +0000
Subject: [PATCH 06/10] fix: reject quadrature orders out of range instead of
 reading beyond the cache

---
 dune/geometry/quadraturerules.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..5a436d5 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -294,6 +294,10 @@ namespace Dune {
         orders = QuadratureOrderVector(numRules);
       });
 
+      if (dim > 0 && (p < 0 || std::size_t(p) >= quadratureOrders.size()))
+        DUNE_THROW(QuadratureOrderOutOfRange, "QuadratureRule for order " << p << " and GeometryType "
+                                                                         << t << " not available");
+
       // we only have one quadrature rule for points
       auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
       // initialize quadrature rule once
-- 
2.43.0


From 15542c73369d3ed5129dd97161e886d43ec26a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:42 +0000
Subject: [PATCH 07/10] fix: select the quadrature rule of the requested basic
 type

---
 dune/geometry/quadraturerules.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 5a436d5..b67d2ef 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -335,7 +335,16 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
+      GeometryType gt;
+      switch (t) {
+        case GeometryType::simplex : gt = GeometryTypes::simplex(dim); break;
+        case GeometryType::cube : gt = GeometryTypes::cube(dim); break;
+        case GeometryType::pyramid : gt = GeometryTypes::pyramid; break;
+        case GeometryType::prism : gt = GeometryTypes::prism; break;
+        default : break;
+      }
+      if (gt.isNone() || gt.dim() != dim)
+        DUNE_THROW(NotImplemented, "No QuadratureRule of dimension " << dim << " for basic type " << t);
       return instance()._rule(gt,p,qt);
     }
   };
-- 
2.43.0


From 60e4c4787b087c9f290519e9ad9fe7915bf63c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:50:19 +0000
Subject: [PATCH 08/10] fix: register the members of a new multilinear geometry
 class in Python

---
 dune/python/geometry/multilineargeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 9633c6f..8180369 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -66,7 +66,7 @@ namespace Dune
           );
       auto cls = entry.first;
 
-      if (!entry.second)
+      if (entry.second)
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
-- 
2.43.0


From c48ec9f92845330c8ea3b10e8d9d7482e7abe51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:50:19 +0000
Subject: [PATCH 09/10] fix: return the inverse Jacobian of multilinear
 geometries as a matrix known to Python

---
 dune/python/geometry/multilineargeometry.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 8180369..f6502d3 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -32,7 +32,13 @@ namespace Dune
       void operator()(pybind11::class_<MGeometry>& cls)
       {
         cls.def("toLocal"                  , &MGeometry::local);
-        cls.def("jacobianInverseTransposed", &MGeometry::jacobianInverseTransposed);
+        // the nested matrix type is not known to Python, its base class is
+        cls.def("jacobianInverseTransposed",
+            [](const MGeometry& geom, const typename MGeometry::LocalCoordinate& local)
+              -> FieldMatrix<typename MGeometry::ctype, MGeometry::coorddimension, MGeometry::mydimension>
+            {
+              return geom.jacobianInverseTransposed(local);
+            });
       }
     };
 
-- 
2.43.0


From 11cc9638348559be9fcd3c908ccc3fb066860da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:55 +0000
Subject: [PATCH 10/10] fix: integrate over a geometry given in place of an
 entity in Python

---
 python/dune/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dune/geometry/__init__.py b/python/dune/geometry/__init__.py
index d594cc8..11bc7c9 100644
--- a/python/dune/geometry/__init__.py
+++ b/python/dune/geometry/__init__.py
@@ -10,7 +10,7 @@ def _duneIntegrate(self,entity,f):
     try:
         ie = entity.geometry.integrationElement
     except AttributeError:
-        ie = geometry.integrationElement
+        ie = entity.integrationElement
     return numpy.sum(f(entity,points)*ie(points)*weights,axis=-1)
 
 _duneQuadratureRules = {}
-- 
2.43.0

