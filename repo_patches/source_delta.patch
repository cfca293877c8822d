From 586fbc9499a242ab8435ea49f5a7bb23539c3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 01/15] fix: compare shapeless geometry types by dimension

operator== treated all types tagged as none as equal, although the
documentation says they are equal if and only if the dimensions match, and
operator< already distinguished them.  Ignore the topology id of such types
in operator<, too, so that both operators describe the same equivalence.
---
 dune/geometry/type.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..8cfb348 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,10 +376,9 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
+               && ( dim_ == other.dim_ )
                && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
+                    || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
                     )
                );
     }
@@ -395,6 +394,7 @@ namespace Dune
                || ( !( other.none_ < none_ )
                     && ( ( dim_ < other.dim_ )
                          || ( (other.dim_ == dim_)
+                              && ( none_ == false )
                               && ((topologyId_ >> 1) < (other.topologyId_ >> 1) )
                               )
                          )
-- 
2.43.0


From e328d3a4b35a443822ea290063500d2c571abc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 02/15] fix: return the right vertex geometry from cube
 refinements

The vertex iterator decomposed its index with the number of cells per
direction instead of the number of vertices, so geometry() described a
different point than coords().
---
 dune/geometry/refinement/hcube.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..87e7c15 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,7 +391,7 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
+        std::array<unsigned int,dimension> intCoords = (codimension == 0) ? cellCoord() : vertexCoord();
 
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
-- 
2.43.0


From fd64fdeb951d05c7b8634396ad38378ac408fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 03/15] fix: return the right vertex geometry from simplex
 refinements

geometry() of a vertex returned the integer coordinates of the Kuhn lattice
instead of the coordinates in the refined element.
---
 dune/geometry/refinement/simplex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From 3b2442df661f4dca1532f621b18469afe59c21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 04/15] fix: return the right vertex geometry from pyramid
 triangulations

geometry() of a vertex omitted the transformation to the reference pyramid
that coords() applies.
---
 dune/geometry/refinement/pyramidtriangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..540dbf6 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,7 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From 5145758531f0a4b0e6be4edc945c9eb5dc60d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 05/15] fix: make self-assignment of virtual refinement
 iterators safe

The assignment operator deleted its backend before cloning the one of the
right hand side, which is the same object on self-assignment.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..1c22b16 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *newBackend = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = newBackend;
     return *this;
   }
 
-- 
2.43.0


From 4cc83ec586174ecb552b0a70c754a5cb926a8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 06/15] fix: refuse quadrature orders that are not available

Orders below zero or above maxOrder() indexed the rule cache out of bounds.
Throw the documented QuadratureOrderOutOfRange exception instead.
---
 dune/geometry/quadraturerules.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..273e34a 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -294,6 +294,10 @@ namespace Dune {
         orders = QuadratureOrderVector(numRules);
       });
 
+      if (dim > 0 && (p < 0 || static_cast<std::size_t>(p) >= quadratureOrders.size()))
+        DUNE_THROW(QuadratureOrderOutOfRange,
+                   "Quadrature rule of order " << p << " not supported for " << t << "!");
+
       // we only have one quadrature rule for points
       auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
       // initialize quadrature rule once
-- 
2.43.0


From 0449807ccb200a07507655f8f7695fb3aeeea2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 07/15] fix: select quadrature rules by basic type correctly

The enumerator was passed on as a topology id, so that e.g. asking for a cube
rule delivered a rule for simplices.
---
 dune/geometry/quadraturerules.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 273e34a..5248b5f 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -335,8 +335,15 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
-      return instance()._rule(gt,p,qt);
+      if (t == GeometryType::simplex)
+        return instance()._rule(GeometryTypes::simplex(dim),p,qt);
+      if (t == GeometryType::cube)
+        return instance()._rule(GeometryTypes::cube(dim),p,qt);
+      if (t == GeometryType::pyramid && dim == 3)
+        return instance()._rule(GeometryTypes::pyramid,p,qt);
+      if (t == GeometryType::prism && dim == 3)
+        return instance()._rule(GeometryTypes::prism,p,qt);
+      DUNE_THROW(Exception, "Unknown GeometryType");
     }
   };
 
-- 
2.43.0


From a2e3354ba98ee9ab45716869c1ac50f57317ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 08/15] fix: accept an initial guess that already solves the
 Gauss-Newton problem

If the residual of the initial guess cannot be reduced because it is already
below the tolerance, e.g. in local(center()), stagnation is no error.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..c593fed 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -95,7 +95,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
 
     // cannot reduce the residual
     if (!(resNorm < resNorm0))
-      return GaussNewtonErrorCode::STAGNATION;
+      return (resNorm0 < opts.absTol) ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::STAGNATION;
 
     x0 = x;
     resNorm0 = resNorm;
-- 
2.43.0


From 1c10a0d7375df6db399dfd0314574d157b3cf2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 09/15] fix: do not stop curved volume computations at
 coinciding rules

Gauss rules of order 2n and 2n+1 are identical on lines and cubes, so the
difference of two subsequent orders vanishes before the volume has converged.
Compare every other order, and stop at the maximal available order.
---
 dune/geometry/localfiniteelementgeometry.hh | 4 +++-
 dune/geometry/mappedgeometry.hh             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..7df0687 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -280,7 +280,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // rules of subsequent orders may coincide, so advance by two
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..e56cda7 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -245,7 +245,9 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
+    // rules of subsequent orders may coincide, so advance by two
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 3; p < opts.maxIt && p <= maxOrder; p += 2) {
       Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
-- 
2.43.0


From 3d760f3907077575a0bde2d5c0eda7cc05d43862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 10/15] fix: register the methods of newly inserted Python
 geometry classes

insertClass reports true for a new class, so the constructor and all methods
were skipped exactly when they had to be registered.
---
 dune/python/geometry/multilineargeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 9633c6f..8180369 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -66,7 +66,7 @@ namespace Dune
           );
       auto cls = entry.first;
 
-      if (!entry.second)
+      if (entry.second)
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
-- 
2.43.0


From 6e177a87166dadd20afec4f8cecb4fb3d51b43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 11/15] fix: let the Python integration helper accept
 geometries

The fallback for objects without a geometry attribute referred to an undefined
name.
---
 python/dune/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dune/geometry/__init__.py b/python/dune/geometry/__init__.py
index d594cc8..11bc7c9 100644
--- a/python/dune/geometry/__init__.py
+++ b/python/dune/geometry/__init__.py
@@ -10,7 +10,7 @@ def _duneIntegrate(self,entity,f):
     try:
         ie = entity.geometry.integrationElement
     except AttributeError:
-        ie = geometry.integrationElement
+        ie = entity.integrationElement
     return numpy.sum(f(entity,points)*ie(points)*weights,axis=-1)
 
 _duneQuadratureRules = {}
-- 
2.43.0


From 94c8b766af4c5e7160791757ff6ff4353c0f3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:26 +0000
Subject: [PATCH 12/15] fix: compute coordinates of cube refinements in the
 coordinate type

Positions and geometries of a refined cube were computed in double even
when the coordinate type is more precise, so long double refinements
were only accurate to double precision.
---
 dune/geometry/refinement/hcube.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 87e7c15..b68c8e9 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -205,7 +205,7 @@ namespace Dune
         CoordVector c;
         for (int d = 0; d < dimension; d++)
         {
-          c[d] = v[d]*1.0 / asCommon()._nIntervals;
+          c[d] = CoordType(v[d]) / CoordType(asCommon()._nIntervals);
         }
         return c;
       }
@@ -264,7 +264,7 @@ namespace Dune
         CoordVector c;
         for (int d=0; d<dimension; d++)
         {
-          c[d] = (v[d]*1.0 + 0.5) / asCommon()._nIntervals;
+          c[d] = (CoordType(v[d]) + CoordType(0.5)) / CoordType(asCommon()._nIntervals);
         }
         return c;
       }
@@ -401,15 +401,15 @@ namespace Dune
         if constexpr (codimension == 0) {
           for (size_t j = 0; j < dimension; j++)
           {
-            lower[j] = double(intCoords[j])     / double(_nIntervals);
-            upper[j] = double(intCoords[j] + 1) / double(_nIntervals);
+            lower[j] = CoordType(intCoords[j])     / CoordType(_nIntervals);
+            upper[j] = CoordType(intCoords[j] + 1) / CoordType(_nIntervals);
           }
 
           return typename RefinementImp<dimension,
                                         CoordType>::template Codim<codimension>::Geometry(lower,upper);
         } else {
           for (size_t j = 0; j < dimension; j++)
-            lower[j] = upper[j] = double(intCoords[j]) / double(_nIntervals);
+            lower[j] = upper[j] = CoordType(intCoords[j]) / CoordType(_nIntervals);
 
           return typename RefinementImp<dimension,
                                         CoordType>::template Codim<codimension>::Geometry(lower,upper,std::bitset<dimension>(0));
-- 
2.43.0


From b59f2a86304d48009e5007c74c0cceea65112099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:29 +0000
Subject: [PATCH 13/15] fix: return a plain matrix from the Python
 jacobianInverseTransposed of MultiLinearGeometry

The method returned a C++ class that is not registered with Python.
Every call ended in a TypeError.
Convert the result to the registered FieldMatrix.
---
 dune/python/geometry/multilineargeometry.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 8180369..2dab83e 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -32,7 +32,11 @@ namespace Dune
       void operator()(pybind11::class_<MGeometry>& cls)
       {
         cls.def("toLocal"                  , &MGeometry::local);
-        cls.def("jacobianInverseTransposed", &MGeometry::jacobianInverseTransposed);
+        cls.def("jacobianInverseTransposed",
+            [](const MGeometry& geom, const typename MGeometry::LocalCoordinate& local) {
+              // return the matrix itself, the derived class is not known to Python
+              return FieldMatrix< typename MGeometry::ctype, MGeometry::coorddimension, MGeometry::mydimension >( geom.jacobianInverseTransposed(local) );
+            });
       }
     };
 
-- 
2.43.0


From cb094ccb1b6cb203bc7e4a3707379a0d63de82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:55 +0000
Subject: [PATCH 14/15] fix: Gauss-Newton iteration reported success without
 having looked at the residual

With no outer or no line-search iteration allowed, the residual norm kept its
initial value zero and the start value was returned as a solution. Start with
the residual of the initial guess instead.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index c593fed..70efd2c 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -69,7 +69,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   Domain dx{};
   Range dy = f(x0) - y;
   R resNorm0 = dy.two_norm();
-  R resNorm = 0;
+  R resNorm = resNorm0;
 
   for (int i = 0; i < opts.maxIt; ++i)
   {
-- 
2.43.0


From d2c93b61f35e67aa24ca347884f7d85c53f103ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:23:43 +0000
Subject: [PATCH 15/15] fix: evaluate multilinear geometries right in the plane
 of a cone tip

MultiLinearGeometry::global returned the tip for every local point whose last
coordinate puts it into the plane of the tip of a cone. Only points of the
reference element itself are close to the tip there. For the unit triangle the
point (0.5,1) was mapped to (0,1), while CachedMultiLinearGeometry and
AffineGeometry map it to (0.5,1). Inverting a map composed with such a geometry
could stop at a wrong local coordinate for this reason.
---
 dune/geometry/multilineargeometry.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 1ca32dc..ea8e253 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -767,7 +767,16 @@ namespace Dune
       if( cxn > Traits::tolerance() || cxn < -Traits::tolerance() )
         global< add >( topologyId, std::integral_constant< int, dim-1 >(), cit, df/cxn, x, rf*cxn, y );
       else
+      {
+        // use the limit for an affine-linear mapping for bottom, which depends
+        // on x for points outside of the reference element
+        auto cit2( cit );
+        FieldMatrix< ctype, dim-1, coorddimension > jt;
+        jacobianTransposed< false >( topologyId, std::integral_constant< int, dim-1 >(), cit2, ctype( 0 ), x, rf, jt );
         global< add >( topologyId, std::integral_constant< int, dim-1 >(), cit, df, x, ctype( 0 ), y );
+        for( int j = 0; j < dim-1; ++j )
+          y.axpy( df*x[ j ], jt[ j ] );
+      }
       // apply xn times the tip
       y.axpy( rf*xn, *cit );
       ++cit;
-- 
2.43.0

