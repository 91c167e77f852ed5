From fac518e0793c97a35084e381f4d32c61decece29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 01/92] fix: CGeoLine::setStartPoint keeps the direction vector
 in step with the end points

---
 trunk/src/geometry/GeoLine_Imp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 21b99b1..7242d1e 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -43,6 +43,7 @@ namespace ENigMA
         void CGeoLine<Real>::setStartPoint(const CGeoCoordinate<Real>& aPoint1)
         {
             this->m_startPoint = aPoint1;
+            this->m_vector = m_endPoint - aPoint1;
         }
 
         template <typename Real>
-- 
2.43.0


From 175af07ee73444e00fe688280a46bb0dbb1a7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 02/92] fix: CGeoLine::distance to a line keeps the closest
 point on the second line

---
 trunk/src/geometry/GeoLine_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 7242d1e..6b20352 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -463,6 +463,18 @@ namespace ENigMA
 
             Real mub = (d1343 + d4321 * mua) / d4343;
 
+            // Keep the second point on its line and move the first one accordingly
+            if (mub < -aTolerance)
+            {
+                mub = 0.0;
+                mua = std::min(std::max(-d1321 / d2121, static_cast<Real>(0.0)), static_cast<Real>(1.0));
+            }
+            else if (mub > 1.0 + aTolerance)
+            {
+                mub = 1.0;
+                mua = std::min(std::max((d4321 - d1321) / d2121, static_cast<Real>(0.0)), static_cast<Real>(1.0));
+            }
+
             aPoint1 = this->startPoint() + mua * this->vector();
             aPoint2 = aLine.startPoint() + mub * aLine.vector();
 
-- 
2.43.0


From dfac91c355206e24c18bbc3c472d636ea916571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 03/92] fix: CGeoTriangle::distance considers the edges and not
 only the vertices

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 1ca0251..d9aeeaf 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -340,17 +340,20 @@ namespace ENigMA
             {
                 aDistance = std::numeric_limits<Real>::max();
 
-                // Get shortest distance
+                // Get shortest distance to the edges
                 for (Integer i = 0; i < 3; ++i)
                 {
-                    CGeoCoordinate<Real> aVertex = this->vertex(i);
+                    CGeoLine<Real> anEdge(this->vertex((i + 0) % 3), this->vertex((i + 1) % 3));
 
-                    Real dist = (aPoint - aVertex).norm();
+                    CGeoCoordinate<Real> anEdgePoint = this->vertex(i);
+                    Real dist = (aPoint - anEdgePoint).norm();
+
+                    anEdge.distance(aPoint, anEdgePoint, dist);
 
                     if (dist < aDistance)
                     {
                         aDistance = dist;
-                        aNewPoint = aVertex;
+                        aNewPoint = anEdgePoint;
                     }
                 }
             }
-- 
2.43.0


From a608cd92e312f50169c9964400c91c5d8790f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 04/92] fix: CGeoVolume::reset also drops the cached centroid

---
 trunk/src/geometry/GeoVolume_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/geometry/GeoVolume_Imp.hpp b/trunk/src/geometry/GeoVolume_Imp.hpp
index 7114d89..32060d5 100644
--- a/trunk/src/geometry/GeoVolume_Imp.hpp
+++ b/trunk/src/geometry/GeoVolume_Imp.hpp
@@ -31,6 +31,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoVolume<Real>::reset()
         {
+            CGeoCentroid<Real>::reset();
+
             m_surfaceArea = 0.0;
             m_volume = 0.0;
 
-- 
2.43.0


From 72cb8e8477e27d4567aa7bd6e4aee3d0cfcb1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 05/92] fix: CGeoTriangularPrism and CGeoHexahedron implement
 reset

---
 trunk/src/geometry/GeoHexahedron_Imp.hpp      | 3 ++-
 trunk/src/geometry/GeoTriangularPrism_Imp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoHexahedron_Imp.hpp b/trunk/src/geometry/GeoHexahedron_Imp.hpp
index 6e120c9..6c5b3ab 100644
--- a/trunk/src/geometry/GeoHexahedron_Imp.hpp
+++ b/trunk/src/geometry/GeoHexahedron_Imp.hpp
@@ -30,7 +30,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoHexahedron<Real>::reset()
         {
-            // TODO
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
index 7af6a73..5949395 100644
--- a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
@@ -28,7 +28,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoTriangularPrism<Real>::reset()
         {
-            // TODO:
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
-- 
2.43.0


From bc59d6725c100038895adb655fc201a74e2df4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 06/92] fix: bounding boxes of CGeoCircle and CGeoSphere follow
 the center

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 4 ++--
 trunk/src/geometry/GeoSphere_Imp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index 0668dbd..ee265f2 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -106,8 +106,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-this->m_radius, -this->m_radius, 0.0);
-                CGeoCoordinate<Real> aCoordinate2(+this->m_radius, +this->m_radius, 0.0);
+                CGeoCoordinate<Real> aCoordinate1(this->m_center.x() - this->m_radius, this->m_center.y() - this->m_radius, this->m_center.z());
+                CGeoCoordinate<Real> aCoordinate2(this->m_center.x() + this->m_radius, this->m_center.y() + this->m_radius, this->m_center.z());
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
diff --git a/trunk/src/geometry/GeoSphere_Imp.hpp b/trunk/src/geometry/GeoSphere_Imp.hpp
index 5274631..5cbe824 100644
--- a/trunk/src/geometry/GeoSphere_Imp.hpp
+++ b/trunk/src/geometry/GeoSphere_Imp.hpp
@@ -123,8 +123,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-m_radius, -m_radius, -m_radius);
-                CGeoCoordinate<Real> aCoordinate2(+m_radius, +m_radius, +m_radius);
+                CGeoCoordinate<Real> aCoordinate1(m_center.x() - m_radius, m_center.y() - m_radius, m_center.z() - m_radius);
+                CGeoCoordinate<Real> aCoordinate2(m_center.x() + m_radius, m_center.y() + m_radius, m_center.z() + m_radius);
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
-- 
2.43.0


From 1f518ccbb0098dfedf1a3e541a9ca9863974ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 07/92] fix: CGeoCircle through three points no longer divides
 by zero slopes

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 40 ++++++++++++----------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index ee265f2..bf9cc52 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -14,37 +14,31 @@ namespace ENigMA
         template <typename Real>
         CGeoCircle<Real>::CGeoCircle(const CGeoCoordinate<Real>& aPoint1, const CGeoCoordinate<Real>& aPoint2, const CGeoCoordinate<Real>& aPoint3, const Real aTolerance)
         {
+            // Edges from the first point
             Real xDelta_a = aPoint2.x() - aPoint1.x();
             Real yDelta_a = aPoint2.y() - aPoint1.y();
 
-            Real xDelta_b = aPoint3.x() - aPoint2.x();
-            Real yDelta_b = aPoint3.y() - aPoint2.y();
+            Real xDelta_b = aPoint3.x() - aPoint1.x();
+            Real yDelta_b = aPoint3.y() - aPoint1.y();
 
-            if (std::fabs(xDelta_a) <= aTolerance * aTolerance && std::fabs(yDelta_b) <= aTolerance * aTolerance)
+            Real d = 2.0 * (xDelta_a * yDelta_b - yDelta_a * xDelta_b);
+
+            if (std::fabs(d) <= aTolerance * aTolerance)
             {
-                this->m_center.x() = 0.5 * (aPoint2.x() + aPoint3.x());
-                this->m_center.y() = 0.5 * (aPoint1.y() + aPoint2.y());
-                this->m_center.z() = aPoint1.z();
-                this->m_radius = (aPoint1 - this->m_center).norm();
+                // Collinear points
+                this->m_center << 0.0, 0.0, 0.0;
+                this->m_radius = 0.0;
             }
             else
             {
-                Real aSlope = yDelta_a / xDelta_a; //
-                Real bSlope = yDelta_b / xDelta_b;
-
-                if (std::fabs(aSlope - bSlope) <= aTolerance * aTolerance)
-                {
-                    this->m_center << 0.0, 0.0, 0.0;
-                    this->m_radius = 0.0;
-                }
-                else
-                {
-                    this->m_center.x() = (aSlope * bSlope * (aPoint1.y() - aPoint3.y()) + bSlope * (aPoint1.x() + aPoint2.x()) - aSlope * (aPoint2.x() + aPoint3.x())) / (2.0 * (bSlope - aSlope));
-                    this->m_center.y() = -(m_center.x() - (aPoint1.x() + aPoint2.x()) * 0.5) / aSlope + (aPoint1.y() + aPoint2.y()) * 0.5;
-                    this->m_center.z() = aPoint1.z();
-
-                    this->m_radius = (aPoint1 - this->m_center).norm();
-                }
+                Real a2 = xDelta_a * xDelta_a + yDelta_a * yDelta_a;
+                Real b2 = xDelta_b * xDelta_b + yDelta_b * yDelta_b;
+
+                this->m_center.x() = aPoint1.x() + (yDelta_b * a2 - yDelta_a * b2) / d;
+                this->m_center.y() = aPoint1.y() + (xDelta_a * b2 - xDelta_b * a2) / d;
+                this->m_center.z() = aPoint1.z();
+
+                this->m_radius = (aPoint1 - this->m_center).norm();
             }
         }
 
-- 
2.43.0


From 3da7804b606bd29a6ce49e443db85e2d7c750cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 08/92] fix: CGeoTriangle::intersects tests its own vertices
 against the other plane

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index d9aeeaf..6d05839 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -127,7 +127,7 @@ namespace ENigMA
             Real s2[3];
 
             for (char i = 0; i < 3; ++i)
-                s2[i] = aTriangle.normal().dot(aTriangle.vertex(i)) - d2;
+                s2[i] = aTriangle.normal().dot(this->vertex(i)) - d2;
 
             if ((s2[0] > +aTolerance && s2[1] > +aTolerance && s2[2] > +aTolerance) || (s2[0] < -aTolerance && s2[1] < -aTolerance && s2[2] < -aTolerance))
             {
-- 
2.43.0


From e99fb04cacc53ca014491434659926c84c7e9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 09/92] fix: CGeoPolygon and CGeoPolyhedron reset also drop the
 cached measures

---
 trunk/src/geometry/GeoPolygon_Imp.hpp    | 1 +
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index b408d1d..63a8d49 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -28,6 +28,7 @@ namespace ENigMA
         void CGeoPolygon<Real>::reset()
         {
             m_polyline.reset();
+            CGeoArea<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index c33b46f..3b70894 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -224,6 +224,7 @@ namespace ENigMA
         {
             m_polygons.clear();
             m_polygonIds.clear();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
-- 
2.43.0


From 77182e5f28d0ea8aba71bdaa604253b14ccdbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 10/92] fix: CGeoPolyhedron::cut keeps the part on the other
 side of the plane in the new polyhedron

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index 3b70894..88192d5 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -557,16 +557,18 @@ namespace ENigMA
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, const Real aTolerance)
         {
-            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
+            CGeoPlane<Real> aPlaneInv = aPlane;
+            aPlaneInv.invert();
+
+            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
         }
 
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, Real volumeFractionReq, Real& volumeFractionAct, Integer& nIterations, const Integer nMaxIterations, const Real aNormalizedTolerance, const Real aTolerance)
         {
-            CGeoPlane<Real> aPlaneInv;
-            aPlaneInv.normal() = -aPlane.normal();
-            aPlaneInv.setD(aPlane.d());
+            CGeoPlane<Real> aPlaneInv = aPlane;
+            aPlaneInv.invert();
 
             aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, 1.0 - volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
-- 
2.43.0


From e2310f3ae7e0f4946d31128c59ca27211edb1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 11/92] fix: CGeoAdtree removes the box with the given id and
 survives reset and destruction before set

---
 trunk/src/geometry/GeoAdtree.hpp     |  5 ++++-
 trunk/src/geometry/GeoAdtree_Imp.hpp | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/trunk/src/geometry/GeoAdtree.hpp b/trunk/src/geometry/GeoAdtree.hpp
index 385c405..211626c 100644
--- a/trunk/src/geometry/GeoAdtree.hpp
+++ b/trunk/src/geometry/GeoAdtree.hpp
@@ -9,6 +9,9 @@
 
 #pragma once
 
+#include <array>
+#include <cstring>
+#include <map>
 #include <vector>
 
 #include "GeoBoundingBox.hpp"
@@ -47,7 +50,7 @@ namespace ENigMA
 
             Real m_cmin[6], m_cmax[6];
 
-            std::vector<CGeoAdtreeNode6<Real>*> m_nodes;
+            std::map<Integer, CGeoAdtreeNode6<Real>*> m_nodes;
 
         public:
             CGeoAdtree6();
diff --git a/trunk/src/geometry/GeoAdtree_Imp.hpp b/trunk/src/geometry/GeoAdtree_Imp.hpp
index fec9da5..cd367a1 100644
--- a/trunk/src/geometry/GeoAdtree_Imp.hpp
+++ b/trunk/src/geometry/GeoAdtree_Imp.hpp
@@ -47,6 +47,7 @@ namespace ENigMA
 
         template <typename Real>
         CGeoAdtree6<Real>::CGeoAdtree6()
+            : m_root(NULL)
         {
         }
 
@@ -56,14 +57,15 @@ namespace ENigMA
             memcpy(m_cmin, acmin, 6 * sizeof(Real));
             memcpy(m_cmax, acmax, 6 * sizeof(Real));
 
-            m_root = new CGeoAdtreeNode6<Real>();
-            m_root->sep = (m_cmin[0] + m_cmax[0]) / 2;
+            reset();
         }
 
         template <typename Real>
         void CGeoAdtree6<Real>::reset()
         {
-            m_root->deleteChildren();
+            if (m_root)
+                m_root->deleteChildren();
+
             delete m_root;
             m_root = new CGeoAdtreeNode6<Real>();
             m_root->sep = (m_cmin[0] + m_cmax[0]) / 2;
@@ -73,7 +75,9 @@ namespace ENigMA
         template <typename Real>
         CGeoAdtree6<Real>::~CGeoAdtree6()
         {
-            m_root->deleteChildren();
+            if (m_root)
+                m_root->deleteChildren();
+
             delete m_root;
         }
 
@@ -104,7 +108,7 @@ namespace ENigMA
                     memcpy(node->data, p, 6 * sizeof(Real));
                     node->id = static_cast<Integer>(anId);
 
-                    m_nodes.emplace_back(node);
+                    m_nodes[anId] = node;
 
                     return;
                 }
@@ -134,7 +138,7 @@ namespace ENigMA
             next->id = static_cast<Integer>(anId);
             next->sep = static_cast<Real>((bmin[dir] + bmax[dir]) / 2.0);
 
-            m_nodes.emplace_back(next);
+            m_nodes[anId] = next;
 
             if (lr)
                 node->rightNode = next;
@@ -153,7 +157,14 @@ namespace ENigMA
         template <typename Real>
         void CGeoAdtree6<Real>::remove(Integer anId)
         {
-            CGeoAdtreeNode6<Real>* node = m_nodes[anId];
+            typename std::map<Integer, CGeoAdtreeNode6<Real>*>::iterator it = m_nodes.find(anId);
+
+            if (it == m_nodes.end())
+                return;
+
+            CGeoAdtreeNode6<Real>* node = it->second;
+
+            m_nodes.erase(it);
 
             node->id = -1;
 
-- 
2.43.0


From 9f2902f112132477ff06585269ae236856bfa763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 12/92] fix: CGeoAdtree and CGeoRtree find honours the
 tolerance

---
 trunk/src/geometry/GeoAdtree_Imp.hpp | 12 ++++++------
 trunk/src/geometry/GeoRtree_Imp.hpp  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trunk/src/geometry/GeoAdtree_Imp.hpp b/trunk/src/geometry/GeoAdtree_Imp.hpp
index cd367a1..5f0f101 100644
--- a/trunk/src/geometry/GeoAdtree_Imp.hpp
+++ b/trunk/src/geometry/GeoAdtree_Imp.hpp
@@ -316,13 +316,13 @@ namespace ENigMA
             b_min[1] = m_boundingBox.min().y();
             b_min[2] = m_boundingBox.min().z();
 
-            b_min[3] = aBoundingBox.min().x();
-            b_min[4] = aBoundingBox.min().y();
-            b_min[5] = aBoundingBox.min().z();
+            b_min[3] = aBoundingBox.min().x() - aTolerance;
+            b_min[4] = aBoundingBox.min().y() - aTolerance;
+            b_min[5] = aBoundingBox.min().z() - aTolerance;
 
-            b_max[0] = aBoundingBox.max().x();
-            b_max[1] = aBoundingBox.max().y();
-            b_max[2] = aBoundingBox.max().z();
+            b_max[0] = aBoundingBox.max().x() + aTolerance;
+            b_max[1] = aBoundingBox.max().y() + aTolerance;
+            b_max[2] = aBoundingBox.max().z() + aTolerance;
 
             b_max[3] = m_boundingBox.max().x();
             b_max[4] = m_boundingBox.max().y();
diff --git a/trunk/src/geometry/GeoRtree_Imp.hpp b/trunk/src/geometry/GeoRtree_Imp.hpp
index e95dbac..3732d3e 100644
--- a/trunk/src/geometry/GeoRtree_Imp.hpp
+++ b/trunk/src/geometry/GeoRtree_Imp.hpp
@@ -75,13 +75,13 @@ namespace ENigMA
             Real b_min[3];
             Real b_max[3];
 
-            b_min[0] = aBoundingBox.min().x();
-            b_min[1] = aBoundingBox.min().y();
-            b_min[2] = aBoundingBox.min().z();
+            b_min[0] = aBoundingBox.min().x() - aTolerance;
+            b_min[1] = aBoundingBox.min().y() - aTolerance;
+            b_min[2] = aBoundingBox.min().z() - aTolerance;
 
-            b_max[0] = aBoundingBox.max().x();
-            b_max[1] = aBoundingBox.max().y();
-            b_max[2] = aBoundingBox.max().z();
+            b_max[0] = aBoundingBox.max().x() + aTolerance;
+            b_max[1] = aBoundingBox.max().y() + aTolerance;
+            b_max[2] = aBoundingBox.max().z() + aTolerance;
 
             boundingBoxIds.clear();
 
-- 
2.43.0


From c0d5c2c20030b845db047cc9226d801e80ba81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 13/92] fix: CGeoHashGrid can be built again

---
 trunk/src/geometry/GeoHashGrid_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoHashGrid_Imp.hpp b/trunk/src/geometry/GeoHashGrid_Imp.hpp
index 66d24d3..187b592 100644
--- a/trunk/src/geometry/GeoHashGrid_Imp.hpp
+++ b/trunk/src/geometry/GeoHashGrid_Imp.hpp
@@ -43,6 +43,8 @@ namespace ENigMA
         void CGeoHashGrid<Real>::build()
         {
             // Get bounding box
+            m_boundingBox.reset();
+
             for (Integer i = 0; i < static_cast<Integer>(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects.size()); ++i)
                 m_boundingBox.addCoordinate(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i]);
 
@@ -56,7 +58,7 @@ namespace ENigMA
             m_nbCellsXY = m_nbCellsX * m_nbCellsY;
             m_nbCells = m_nbCellsX * m_nbCellsY * m_nbCellsZ;
 
-            m_coordinateListPtr.resize(m_nbCells + 1);
+            m_coordinateListPtr.assign(m_nbCells + 1, 0);
 
             m_adDelta = m_boundingBox.max() - m_boundingBox.min();
 
-- 
2.43.0


From d02178946d64c40a5482126a6caf6ab8e39edbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 14/92] fix: CGeoOctree finds all points within the tolerance,
 not only those in the octant of the query

---
 trunk/src/geometry/GeoOctree.hpp     |  3 +-
 trunk/src/geometry/GeoOctree_Imp.hpp | 57 +++++++++++++++++++---------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/trunk/src/geometry/GeoOctree.hpp b/trunk/src/geometry/GeoOctree.hpp
index 9051084..01b52de 100644
--- a/trunk/src/geometry/GeoOctree.hpp
+++ b/trunk/src/geometry/GeoOctree.hpp
@@ -9,6 +9,7 @@
 
 #pragma once
 
+#include <set>
 #include "GeoBoundingBox.hpp"
 #include "GeoContainer.hpp"
 #include "GeoCoordinate.hpp"
@@ -41,7 +42,7 @@ namespace ENigMA
             EOctreeLocation dispatch(CGeoOctreeNode<Real>& anOctreeNode, Real x, Real y, Real z);
             void createNode(CGeoOctreeNode<Real>& anOctreeNode, const CGeoOctreeNode<Real>& anOctreeParent, Integer i);
             void createRecursive(CGeoOctreeNode<Real>& anOctreeNode);
-            CGeoOctreeNode<Real>& findRecursive(CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate);
+            void findRecursive(std::set<Integer>& sCoordinateIndices, CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance);
 
             CGeoBoundingBox<Real> m_boundingBox;
 
diff --git a/trunk/src/geometry/GeoOctree_Imp.hpp b/trunk/src/geometry/GeoOctree_Imp.hpp
index fc43303..1db8411 100644
--- a/trunk/src/geometry/GeoOctree_Imp.hpp
+++ b/trunk/src/geometry/GeoOctree_Imp.hpp
@@ -136,7 +136,7 @@ namespace ENigMA
                     if (z < zmid)
                         return OL_FRONT_BOTTOM_LEFT;
                     else
-                        return OL_BACK_TOP_LEFT;
+                        return OL_FRONT_TOP_LEFT;
                 }
             }
             else
@@ -248,6 +248,9 @@ namespace ENigMA
         template <typename Real>
         void CGeoOctree<Real>::build()
         {
+            m_root = CGeoOctreeNode<Real>();
+            m_boundingBox.reset();
+
             // Get bounding box
             for (Integer i = 0; i < static_cast<Integer>(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects.size()); ++i)
                 m_boundingBox.addCoordinate(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i]);
@@ -255,13 +258,13 @@ namespace ENigMA
             const Real C_EPS = std::numeric_limits<Real>::epsilon();
 
             m_root.xmin = m_boundingBox.min().x() - C_EPS;
-            m_root.xmax = m_boundingBox.min().x() + C_EPS;
+            m_root.xmax = m_boundingBox.max().x() + C_EPS;
 
             m_root.ymin = m_boundingBox.min().y() - C_EPS;
-            m_root.ymax = m_boundingBox.min().y() + C_EPS;
+            m_root.ymax = m_boundingBox.max().y() + C_EPS;
 
             m_root.zmin = m_boundingBox.min().z() - C_EPS;
-            m_root.zmax = m_boundingBox.min().z() + C_EPS;
+            m_root.zmax = m_boundingBox.max().z() + C_EPS;
 
             m_root.xmid = (m_boundingBox.min().x() + m_boundingBox.max().x()) * 0.5;
             m_root.ymid = (m_boundingBox.min().y() + m_boundingBox.max().y()) * 0.5;
@@ -276,30 +279,48 @@ namespace ENigMA
         }
 
         template <typename Real>
-        CGeoOctreeNode<Real>& CGeoOctree<Real>::findRecursive(CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate)
+        void CGeoOctree<Real>::findRecursive(std::set<Integer>& sCoordinateIndices, CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance)
         {
-            Integer octreeLocation = static_cast<Integer>(dispatch(anOctreeNode, aCoordinate.x(), aCoordinate.y(), aCoordinate.z()));
+            if (anOctreeNode.nodes.empty())
+            {
+                for (Integer i = 0; i < anOctreeNode.nbCoordinates(); ++i)
+                {
+                    Integer aCoordinateIndex = anOctreeNode.coordinate(i);
+
+                    Real dist = (CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[aCoordinateIndex] - aCoordinate).norm();
+
+                    if (dist <= aTolerance)
+                        sCoordinateIndices.insert(aCoordinateIndex);
+                }
+
+                return;
+            }
 
-            if (!anOctreeNode.isLeaf())
-                findRecursive(anOctreeNode.nodes[octreeLocation], aCoordinate);
+            // Visit all the nodes that are within the tolerance
+            std::set<Integer> sNodes;
 
-            return anOctreeNode.nodes[octreeLocation];
+            for (Integer i = 0; i < 8; ++i)
+            {
+                Real x = aCoordinate.x() + ((i & 1) ? aTolerance : -aTolerance);
+                Real y = aCoordinate.y() + ((i & 2) ? aTolerance : -aTolerance);
+                Real z = aCoordinate.z() + ((i & 4) ? aTolerance : -aTolerance);
+
+                sNodes.insert(static_cast<Integer>(dispatch(anOctreeNode, x, y, z)));
+            }
+
+            for (std::set<Integer>::const_iterator it = sNodes.begin(); it != sNodes.end(); ++it)
+                findRecursive(sCoordinateIndices, anOctreeNode.nodes[*it], aCoordinate, aTolerance);
         }
 
         template <typename Real>
         void CGeoOctree<Real>::find(std::vector<Integer>& coordinateIds, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance)
         {
-            CGeoOctreeNode<Real> anOctreeNode = findRecursive(m_root, aCoordinate);
-
-            for (Integer i = 0; i < anOctreeNode.nbCoordinates(); ++i)
-            {
-                Integer aCoordinateIndex = anOctreeNode.coordinate(i);
+            std::set<Integer> sCoordinateIndices;
 
-                Real dist = (CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[aCoordinateIndex] - aCoordinate).norm();
+            findRecursive(sCoordinateIndices, m_root, aCoordinate, aTolerance);
 
-                if (dist <= aTolerance)
-                    coordinateIds.emplace_back(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjectIds[aCoordinateIndex]);
-            }
+            for (std::set<Integer>::const_iterator it = sCoordinateIndices.begin(); it != sCoordinateIndices.end(); ++it)
+                coordinateIds.emplace_back(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjectIds[*it]);
         }
     }
 }
-- 
2.43.0


From bc37ba0654fcbd92f54a7e44aa2c2351d84cba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 15/92] fix: copying a CMshMesh keeps the mesh sizes, boundary
 face count and centroids

---
 trunk/src/mesh/MshMesh_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 49e25ca..d98de10 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -60,6 +60,15 @@ namespace ENigMA
 
                 addElement(anElementId, anElement);
             }
+
+            m_dx = aMesh.m_dx;
+            m_dy = aMesh.m_dy;
+            m_dz = aMesh.m_dz;
+
+            m_nbBoundaryFaces = aMesh.m_nbBoundaryFaces;
+
+            m_faceCentroid = aMesh.m_faceCentroid;
+            m_elementCentroid = aMesh.m_elementCentroid;
         }
 
         template <typename Real>
-- 
2.43.0


From a4bb80d01137500aae98edc8aff2a8200329f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 16/92] fix: CMshMesh indices are consistent after removals and
 stay so for later additions

---
 trunk/src/mesh/MshMesh_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index d98de10..b654472 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -698,6 +698,8 @@ namespace ENigMA
                 if (itr->second)
                     removeElement(anElementId);
             }
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -732,6 +734,8 @@ namespace ENigMA
                 if (itr->second)
                     removeElement(anElementId);
             }
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -747,6 +751,8 @@ namespace ENigMA
                 m_nodeIndices[aNodeId] = i;
             }
 
+            m_nodeIndex = static_cast<Integer>(m_nodeIds.size());
+
             // Rebuild face indices
             m_faceIndices.clear();
 
@@ -757,6 +763,8 @@ namespace ENigMA
                 m_faceIndices[aFaceId] = i;
             }
 
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
+
             // Rebuild element indices
             m_elementIndices.clear();
 
@@ -766,6 +774,8 @@ namespace ENigMA
 
                 m_elementIndices[anElementId] = i;
             }
+
+            m_elementIndex = static_cast<Integer>(m_elementIds.size());
         }
 
         template <typename Real>
@@ -814,6 +824,8 @@ namespace ENigMA
                 if (itr->second)
                     removeNode(aNodeId);
             }
+
+            rebuildIndices();
         }
 
         template <typename Real>
-- 
2.43.0


From 5b7715476abdf44d273363260bab6c0ab09b58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 17/92] fix: CMshMesh::renumber keeps the pair and element of
 every face

---
 trunk/src/mesh/MshMesh_Imp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index b654472..b9f289b 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -922,6 +922,22 @@ namespace ENigMA
                 sNewFaces[aNewFaceId] = aFace;
             }
 
+            mapElementIndex sNewElementIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
+                sNewElementIds[m_elementIds.at(i)] = i;
+
+            for (typename mapFace::iterator it = sNewFaces.begin(); it != sNewFaces.end(); ++it)
+            {
+                CMshFace<Real>& aFace = it->second;
+
+                if (aFace.hasPair() && sNewFaceIds.find(aFace.pairFaceId()) != sNewFaceIds.end())
+                    aFace.setPairFaceId(sNewFaceIds.at(aFace.pairFaceId()));
+
+                if (sNewElementIds.find(aFace.elementId()) != sNewElementIds.end())
+                    aFace.setElementId(sNewElementIds.at(aFace.elementId()));
+            }
+
             mapElement sNewElements;
 
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
-- 
2.43.0


From 7a5666f98d15da6600845e7b8e12c16ab71b9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 18/92] fix: CMshMesh::mergeNodes leaves no reference to a
 merged node

---
 trunk/src/mesh/MshMesh_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index b9f289b..8ca4563 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -572,6 +572,13 @@ namespace ENigMA
                 }
             }
 
+            // A node may have been merged into a node that was itself merged later
+            for (mapNodeIndex::iterator it = sNewNodeIds.begin(); it != sNewNodeIds.end(); ++it)
+            {
+                while (bDeleteNode.at(it->second))
+                    it->second = sNewNodeIds.at(it->second);
+            }
+
             // Renumber elements
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
             {
-- 
2.43.0


From 0913d33be22867d4bef015c60cbe58dcbffa7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 19/92] fix: CMshElement thickness is always initialised and
 reset clears the face ids

---
 trunk/src/mesh/MshElement_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index db91077..a61d0d3 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -32,6 +32,7 @@ namespace ENigMA
         template <typename Real>
         CMshElement<Real>::CMshElement(EElementType anElementType)
             : m_elementType(anElementType)
+            , m_thickness(1.0)
         {
         }
 
@@ -104,7 +105,9 @@ namespace ENigMA
         void CMshElement<Real>::reset()
         {
             m_elementType = ET_NONE;
+            m_thickness = 1.0;
             m_nodeIds.clear();
+            m_faceIds.clear();
         }
 
         template <typename Real>
-- 
2.43.0


From 765dcd4653b339c830d28dde2d38e1088c747735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 20/92] fix: CMshElement::invert inverts prisms and hexahedra

---
 trunk/src/mesh/MshElement_Imp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index a61d0d3..6444d2a 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -393,10 +393,12 @@ namespace ENigMA
                 m_nodeIds[2] = idAux;
                 break;
             case ET_TRIANGULAR_PRISM:
-                // TODO:
+                std::swap(m_nodeIds[1], m_nodeIds[2]);
+                std::swap(m_nodeIds[4], m_nodeIds[5]);
                 break;
             case ET_HEXAHEDRON:
-                // TODO:
+                std::swap(m_nodeIds[1], m_nodeIds[3]);
+                std::swap(m_nodeIds[5], m_nodeIds[7]);
                 break;
             case ET_POLYHEDRON:
                 // TODO:
-- 
2.43.0


From ad4153091b4e3eadeff026c594276845b0909a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 21/92] fix: CMshExtrudedMesher builds untwisted hexahedra

---
 trunk/src/mesh/MshExtrudedMesher_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
index 2cbd8ac..f35b21a 100644
--- a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
+++ b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
@@ -149,9 +149,9 @@ namespace ENigMA
                     aSolidElement.addNodeId(aNodeId3);
                     aSolidElement.addNodeId(aNodeId4);
                     aSolidElement.addNodeId(aNodeId5);
-                    aSolidElement.addNodeId(aNodeId8);
-                    aSolidElement.addNodeId(aNodeId7);
                     aSolidElement.addNodeId(aNodeId6);
+                    aSolidElement.addNodeId(aNodeId7);
+                    aSolidElement.addNodeId(aNodeId8);
 
                     m_mesh.addElement(m_mesh.nextElementId(), aSolidElement);
                 }
-- 
2.43.0


From 0b218bea78ea9fefa5e8cb776f66494bdd90f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 22/92] fix: CMshMeshQuery finds the elements sharing two nodes
 whatever the order of the element ids

---
 trunk/src/mesh/MshMeshQuery_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/mesh/MshMeshQuery_Imp.hpp b/trunk/src/mesh/MshMeshQuery_Imp.hpp
index a548018..248d5d1 100644
--- a/trunk/src/mesh/MshMeshQuery_Imp.hpp
+++ b/trunk/src/mesh/MshMeshQuery_Imp.hpp
@@ -37,6 +37,10 @@ namespace ENigMA
                         m_nodeToElement[aNodeId].emplace_back(anElementId);
                 }
             }
+
+            // Sorted, as required for the intersections below
+            for (typename std::map<Integer, std::vector<Integer>>::iterator it = m_nodeToElement.begin(); it != m_nodeToElement.end(); ++it)
+                std::sort(it->second.begin(), it->second.end());
         }
 
         template <typename Real>
-- 
2.43.0


From 88a3ca4c51db439541fa533cbc41bf97fbe9f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 23/92] fix: CMshCheckMesh::checkOpen compiles for a const mesh

---
 trunk/src/mesh/MshCheckMesh_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshCheckMesh_Imp.hpp b/trunk/src/mesh/MshCheckMesh_Imp.hpp
index 71d960a..0738eda 100644
--- a/trunk/src/mesh/MshCheckMesh_Imp.hpp
+++ b/trunk/src/mesh/MshCheckMesh_Imp.hpp
@@ -30,12 +30,12 @@ namespace ENigMA
             {
                 Integer anElementId = aMesh.elementId(i);
 
-                CMshElement<Real>& anElement = aMesh.element(anElementId);
+                const CMshElement<Real>& anElement = aMesh.element(anElementId);
 
                 for (Integer j = 0; j < anElement.nbFaceIds(); ++j)
                 {
                     Integer aFaceId = anElement.faceId(j);
-                    CMshFace<Real>& aFace = aMesh.face(aFaceId);
+                    const CMshFace<Real>& aFace = aMesh.face(aFaceId);
 
                     if (!aFace.hasPair())
                         return true;
-- 
2.43.0


From 7f25b25b702496cab78f7a8b5e63bd4cf387b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 24/92] fix: CMshMesh::addMesh keeps the faces, pairs and
 elements of the added mesh connected

---
 trunk/src/mesh/MshMesh_Imp.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 8ca4563..a1f5b56 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -168,6 +168,8 @@ namespace ENigMA
         void CMshMesh<Real>::addMesh(const CMshMesh<Real>& aMesh)
         {
             mapNodeIndex sNewNodeIds;
+            mapFaceIndex sNewFaceIds;
+            mapElementIndex sNewElementIds;
 
             for (Integer i = 0; i < aMesh.nbNodes(); ++i)
             {
@@ -193,6 +195,8 @@ namespace ENigMA
                     Integer aNodeId = aNewFace.nodeId(j);
                     aNewFace.setNodeId(j, sNewNodeIds.at(aNodeId));
                 }
+
+                sNewFaceIds[aFaceId] = aNewFaceId;
             }
 
             for (Integer i = 0; i < aMesh.nbElements(); ++i)
@@ -209,6 +213,31 @@ namespace ENigMA
                     Integer aNodeId = aNewElement.nodeId(j);
                     aNewElement.setNodeId(j, sNewNodeIds.at(aNodeId));
                 }
+
+                for (Integer j = 0; j < aNewElement.nbFaceIds(); ++j)
+                {
+                    mapFaceIndex::const_iterator it = sNewFaceIds.find(aNewElement.faceId(j));
+
+                    if (it != sNewFaceIds.end())
+                        aNewElement.setFaceId(j, it->second);
+                }
+
+                sNewElementIds[anElementId] = aNewElementId;
+            }
+
+            for (mapFaceIndex::const_iterator it = sNewFaceIds.begin(); it != sNewFaceIds.end(); ++it)
+            {
+                CMshFace<Real>& aNewFace = face(it->second);
+
+                mapFaceIndex::const_iterator itPair = sNewFaceIds.find(aNewFace.pairFaceId());
+
+                if (aNewFace.hasPair() && itPair != sNewFaceIds.end())
+                    aNewFace.setPairFaceId(itPair->second);
+
+                mapElementIndex::const_iterator itElement = sNewElementIds.find(aNewFace.elementId());
+
+                if (itElement != sNewElementIds.end())
+                    aNewFace.setElementId(itElement->second);
             }
         }
 
-- 
2.43.0


From e98d98aae6afc098d0bbbfdc818d0e42416fb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 25/92] fix: CMshMesh::generateFaces pairs faces with the same
 nodes whatever the rounding of their centers

---
 trunk/src/mesh/MshMesh_Imp.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index a1f5b56..2da57aa 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -315,10 +315,17 @@ namespace ENigMA
 
                 CGeoCoordinate<Real> aCenterCoordinate(0.0, 0.0, 0.0);
 
+                // Add in the order of the ids, so that faces with the same nodes have exactly the same center
+                std::vector<Integer> sNodeIds;
+
                 for (Integer j = 0; j < m_faces.at(aFaceId).nbNodeIds(); ++j)
+                    sNodeIds.emplace_back(m_faces.at(aFaceId).nodeId(j));
+
+                std::sort(sNodeIds.begin(), sNodeIds.end());
+
+                for (Integer j = 0; j < static_cast<Integer>(sNodeIds.size()); ++j)
                 {
-                    Integer aNodeId = m_faces.at(aFaceId).nodeId(j);
-                    CMshNode<Real> aNode = m_nodes.at(aNodeId);
+                    CMshNode<Real> aNode = m_nodes.at(sNodeIds.at(j));
 
                     aCenterCoordinate += aNode;
                 }
-- 
2.43.0


From 3f2e3281cee9610d0fc790d12b81e6bd725e3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 26/92] fix: flipEdges32 flips about the shared edge and skips
 elements already flipped

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 25 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 06282dd..c5d3905 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1740,11 +1740,6 @@ namespace ENigMA
                 if (sFlipped.at(anElementId))
                     continue;
 
-                Integer aNodeId1 = anElement.nodeId(0);
-                Integer aNodeId2 = anElement.nodeId(1);
-                Integer aNodeId3 = anElement.nodeId(2);
-                Integer aNodeId4 = anElement.nodeId(3);
-
                 for (Integer j = 0; j < anElement.nbFaceIds(); ++j)
                 {
                     if (sFlipped.at(anElementId))
@@ -1771,6 +1766,26 @@ namespace ENigMA
 
                         if (sElementIds.size() == 3)
                         {
+                            // The connectivity of elements flipped before is not the one queried
+                            if (sFlipped.at(sElementIds[0]) || sFlipped.at(sElementIds[1]) || sFlipped.at(sElementIds[2]))
+                                continue;
+
+                            // Same orientation as the element, with the shared edge last
+                            static const Integer sOrders[6][4] = { { 0, 1, 2, 3 }, { 0, 2, 3, 1 }, { 0, 3, 1, 2 }, { 1, 2, 0, 3 }, { 1, 3, 2, 0 }, { 2, 3, 0, 1 } };
+
+                            Integer aNodeId1 = 0, aNodeId2 = 0, aNodeId3 = 0, aNodeId4 = 0;
+
+                            for (Integer l = 0; l < 6; ++l)
+                            {
+                                aNodeId1 = anElement.nodeId(sOrders[l][0]);
+                                aNodeId2 = anElement.nodeId(sOrders[l][1]);
+                                aNodeId3 = anElement.nodeId(sOrders[l][2]);
+                                aNodeId4 = anElement.nodeId(sOrders[l][3]);
+
+                                if ((aNodeId3 == aFace.nodeId((k + 0) % 3) && aNodeId4 == aFace.nodeId((k + 1) % 3)) || (aNodeId4 == aFace.nodeId((k + 0) % 3) && aNodeId3 == aFace.nodeId((k + 1) % 3)))
+                                    break;
+                            }
+
                             Integer aNodeId5;
 
                             bool bNodeFound = false;
-- 
2.43.0


From 05595f433acf3f400ded4071e4516edc1a7b6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 27/92] fix: CIntBeam assigns the three-point weights to their
 points

---
 trunk/src/integration/IntBeam_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/integration/IntBeam_Imp.hpp b/trunk/src/integration/IntBeam_Imp.hpp
index 0525147..25c3913 100644
--- a/trunk/src/integration/IntBeam_Imp.hpp
+++ b/trunk/src/integration/IntBeam_Imp.hpp
@@ -52,9 +52,9 @@ namespace ENigMA
                 m_xi[0] = +0.0000000000;
                 m_wxi[0] = +0.8888888888;
                 m_xi[1] = -0.7745966692;
-                m_wxi[0] = +0.5555555555;
-                m_xi[2] = +0.7745966692;
                 m_wxi[1] = +0.5555555555;
+                m_xi[2] = +0.7745966692;
+                m_wxi[2] = +0.5555555555;
                 break;
 
             case 4:
-- 
2.43.0


From 6dc847eaa9dd1f180c0e06be936284abc1d2cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 28/92] fix: CIntHexahedron 27-point rule has every point of
 the tensor grid

---
 trunk/src/integration/IntHexahedron_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/integration/IntHexahedron_Imp.hpp b/trunk/src/integration/IntHexahedron_Imp.hpp
index 0613272..2368e84 100644
--- a/trunk/src/integration/IntHexahedron_Imp.hpp
+++ b/trunk/src/integration/IntHexahedron_Imp.hpp
@@ -144,7 +144,7 @@ namespace ENigMA
                 m_weta[6] = 0.5555555556;
                 m_wzeta[6] = 0.5555555556;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
+                m_eta[7] = +0.7745966692;
                 m_zeta[7] = -0.7745966692;
                 m_wxi[7] = 0.8888888889;
                 m_weta[7] = 0.5555555556;
@@ -198,7 +198,7 @@ namespace ENigMA
                 m_weta[15] = 0.5555555556;
                 m_wzeta[15] = 0.5555555556;
                 m_xi[16] = +0.0000000000;
-                m_eta[16] = -0.7745966692;
+                m_eta[16] = +0.7745966692;
                 m_zeta[16] = +0.7745966692;
                 m_wxi[16] = 0.8888888889;
                 m_weta[16] = 0.5555555556;
@@ -252,7 +252,7 @@ namespace ENigMA
                 m_weta[24] = 0.5555555556;
                 m_wzeta[24] = 0.8888888889;
                 m_xi[25] = +0.0000000000;
-                m_eta[25] = -0.7745966692;
+                m_eta[25] = +0.7745966692;
                 m_zeta[25] = +0.0000000000;
                 m_wxi[25] = 0.8888888889;
                 m_weta[25] = 0.5555555556;
-- 
2.43.0


From be042cb2a8c5b5f55756d2fac907abc50a884e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 29/92] fix: CIntTriangle one and three-point weights sum to
 one half as those of the other rules

---
 trunk/src/integration/IntTriangle_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/integration/IntTriangle_Imp.hpp b/trunk/src/integration/IntTriangle_Imp.hpp
index 5bc02f6..d34c764 100644
--- a/trunk/src/integration/IntTriangle_Imp.hpp
+++ b/trunk/src/integration/IntTriangle_Imp.hpp
@@ -48,7 +48,7 @@ namespace ENigMA
                 const Real o1beta1[1] = { 3.33333333333333e-001 };
                 const Real o1beta2[1] = { 3.33333333333333e-001 };
                 const Real o1beta3[1] = { 3.33333333333333e-001 };
-                const Real o1wbeta[1] = { 1.0 };
+                const Real o1wbeta[1] = { 0.5 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -66,7 +66,7 @@ namespace ENigMA
                 const Real o3beta1[3] = { 0.5, 0.0, 0.5 };
                 const Real o3beta2[3] = { 0.0, 0.5, 0.5 };
                 const Real o3beta3[3] = { 0.5, 0.5, 0.0 };
-                const Real o3wbeta[3] = { 1.0, 1.0, 1.0 };
+                const Real o3wbeta[3] = { 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
-- 
2.43.0


From 86322ad53f5891d6fc7d8d54dd65109f3bd4f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 30/92] fix: CIntTriangularPrism one and nine-point rules
 integrate over the unit prism

---
 .../integration/IntTriangularPrism_Imp.hpp    | 74 +++++++++----------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/trunk/src/integration/IntTriangularPrism_Imp.hpp b/trunk/src/integration/IntTriangularPrism_Imp.hpp
index 9f81f86..7b4da23 100644
--- a/trunk/src/integration/IntTriangularPrism_Imp.hpp
+++ b/trunk/src/integration/IntTriangularPrism_Imp.hpp
@@ -36,11 +36,11 @@ namespace ENigMA
             {
             case 1:
 
-                m_xi[0] = 0.0;
-                m_eta[0] = 0.0;
+                m_xi[0] = 1.0 / 3.0;
+                m_eta[0] = 1.0 / 3.0;
                 m_zeta[0] = 0.0;
-                m_wxi[0] = 2.0;
-                m_weta[0] = 2.0;
+                m_wxi[0] = 1.0;
+                m_weta[0] = 0.5;
                 m_wzeta[0] = 2.0;
                 break;
 
@@ -89,57 +89,57 @@ namespace ENigMA
                 m_xi[0] = 1.0 / 6.0;
                 m_eta[0] = 1.0 / 6.0;
                 m_zeta[0] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[0] = 5.0 / 18.0;
-                m_weta[0] = 5.0 / 18.0;
-                m_wzeta[0] = 5.0 / 18.0;
-                m_xi[1] = 1.0 / 3.0;
+                m_wxi[0] = 1.0 / 3.0;
+                m_weta[0] = 0.5;
+                m_wzeta[0] = 5.0 / 9.0;
+                m_xi[1] = 2.0 / 3.0;
                 m_eta[1] = 1.0 / 6.0;
                 m_zeta[1] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[1] = 5.0 / 18.0;
-                m_weta[1] = 5.0 / 18.0;
-                m_wzeta[1] = 5.0 / 18.0;
+                m_wxi[1] = 1.0 / 3.0;
+                m_weta[1] = 0.5;
+                m_wzeta[1] = 5.0 / 9.0;
                 m_xi[2] = 1.0 / 6.0;
-                m_eta[2] = 1.0 / 3.0;
+                m_eta[2] = 2.0 / 3.0;
                 m_zeta[2] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[2] = 5.0 / 18.0;
-                m_weta[2] = 5.0 / 18.0;
-                m_wzeta[2] = 5.0 / 18.0;
+                m_wxi[2] = 1.0 / 3.0;
+                m_weta[2] = 0.5;
+                m_wzeta[2] = 5.0 / 9.0;
                 m_xi[3] = 1.0 / 6.0;
                 m_eta[3] = 1.0 / 6.0;
                 m_zeta[3] = 0.0;
-                m_wxi[3] = 8.0 / 18.0;
-                m_weta[3] = 8.0 / 18.0;
-                m_wzeta[3] = 8.0 / 18.0;
-                m_xi[4] = 1.0 / 3.0;
+                m_wxi[3] = 1.0 / 3.0;
+                m_weta[3] = 0.5;
+                m_wzeta[3] = 8.0 / 9.0;
+                m_xi[4] = 2.0 / 3.0;
                 m_eta[4] = 1.0 / 6.0;
                 m_zeta[4] = 0.0;
-                m_wxi[4] = 8.0 / 18.0;
-                m_weta[4] = 8.0 / 18.0;
-                m_wzeta[4] = 8.0 / 18.0;
+                m_wxi[4] = 1.0 / 3.0;
+                m_weta[4] = 0.5;
+                m_wzeta[4] = 8.0 / 9.0;
                 m_xi[5] = 1.0 / 6.0;
-                m_eta[5] = 1.0 / 3.0;
+                m_eta[5] = 2.0 / 3.0;
                 m_zeta[5] = 0.0;
-                m_wxi[5] = 8.0 / 18.0;
-                m_weta[5] = 8.0 / 18.0;
-                m_wzeta[5] = 8.0 / 18.0;
+                m_wxi[5] = 1.0 / 3.0;
+                m_weta[5] = 0.5;
+                m_wzeta[5] = 8.0 / 9.0;
                 m_xi[6] = 1.0 / 6.0;
                 m_eta[6] = 1.0 / 6.0;
                 m_zeta[6] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[6] = 5.0 / 18.0;
-                m_weta[6] = 5.0 / 18.0;
-                m_wzeta[6] = 5.0 / 18.0;
-                m_xi[7] = 1.0 / 3.0;
+                m_wxi[6] = 1.0 / 3.0;
+                m_weta[6] = 0.5;
+                m_wzeta[6] = 5.0 / 9.0;
+                m_xi[7] = 2.0 / 3.0;
                 m_eta[7] = 1.0 / 6.0;
                 m_zeta[7] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[7] = 5.0 / 18.0;
-                m_weta[7] = 5.0 / 18.0;
-                m_wzeta[7] = 5.0 / 18.0;
+                m_wxi[7] = 1.0 / 3.0;
+                m_weta[7] = 0.5;
+                m_wzeta[7] = 5.0 / 9.0;
                 m_xi[8] = 1.0 / 6.0;
-                m_eta[8] = 1.0 / 3.0;
+                m_eta[8] = 2.0 / 3.0;
                 m_zeta[8] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[8] = 5.0 / 18.0;
-                m_weta[8] = 5.0 / 18.0;
-                m_wzeta[8] = 5.0 / 18.0;
+                m_wxi[8] = 1.0 / 3.0;
+                m_weta[8] = 0.5;
+                m_wzeta[8] = 5.0 / 9.0;
                 break;
             }
         }
-- 
2.43.0


From adcbb7abf5b75c9de2e5f392fc9eedbfb4a5f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 31/92] fix: CFemConstantStrainTriangle has one source per
 degree of freedom

---
 trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
index fcb6dde..c65c191 100644
--- a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
@@ -20,7 +20,7 @@ namespace ENigMA
             template <typename Real>
             CFemConstantStrainTriangle<Real, 3, 2, 1>::CFemConstantStrainTriangle()
             {
-                this->source.resize(3);
+                this->source.resize(6);
                 this->source.setZero();
 
                 this->m_thickness = 1.0;
-- 
2.43.0


From 034bb5e358b3ae099976577b6f13fb385f819fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 32/92] fix: CFemConstantStrainTetrahedron elasticity matrix is
 symmetric

---
 trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
index 88893fb..119c69a 100644
--- a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
@@ -47,7 +47,7 @@ namespace ENigMA
 
                 Real v = CFemStructuralElement<Real>::coeffPoisson();
 
-                D << 1.0 - v, v, 0.0, 0.0, 0.0, 0.0,
+                D << 1.0 - v, v, v, 0.0, 0.0, 0.0,
                     v, 1.0 - v, v, 0.0, 0.0, 0.0,
                     v, v, 1.0 - v, 0.0, 0.0, 0.0,
                     0.0, 0.0, 0.0, 0.5 - v, 0.0, 0.0,
-- 
2.43.0


From 665093b789cb5be5210932de6a2688a71deb0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 33/92] fix: CFemFlowTetrahedron convective term weights the
 last row with the last node's velocity

---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index b2a4cef..aa252ec 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 C << (us + u[0]) * bi + (vs + v[0]) * ci + (ws + w[0]) * di, (us + u[0]) * bj + (vs + v[0]) * cj + (ws + w[0]) * dj, (us + u[0]) * bk + (vs + v[0]) * ck + (ws + w[0]) * dk, (us + u[0]) * bl + (vs + v[0]) * cl + (ws + w[0]) * dl,
                     (us + u[1]) * bi + (vs + v[1]) * ci + (ws + w[1]) * di, (us + u[1]) * bj + (vs + v[1]) * cj + (ws + w[1]) * dj, (us + u[1]) * bk + (vs + v[1]) * ck + (ws + w[1]) * dk, (us + u[1]) * bl + (vs + v[1]) * cl + (ws + w[1]) * dl,
                     (us + u[2]) * bi + (vs + v[2]) * ci + (ws + w[2]) * di, (us + u[2]) * bj + (vs + v[2]) * cj + (ws + w[2]) * dj, (us + u[2]) * bk + (vs + v[2]) * ck + (ws + w[2]) * dk, (us + u[2]) * bl + (vs + v[2]) * cl + (ws + w[2]) * dl,
-                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[2]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
+                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[3]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
 
                 C *= 1.0 / 120.0;
 
-- 
2.43.0


From e829f86572bb90ed8736a35534172536c2686003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 34/92] fix: CFemTriangle transient term takes the thickness
 into account

---
 trunk/src/fem/FemTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/FemTriangle_Imp.hpp b/trunk/src/fem/FemTriangle_Imp.hpp
index 1dcd83f..ab5ca1f 100644
--- a/trunk/src/fem/FemTriangle_Imp.hpp
+++ b/trunk/src/fem/FemTriangle_Imp.hpp
@@ -89,7 +89,7 @@ namespace ENigMA
                 1.0 / 12.0, 1.0 / 6.0, 1.0 / 12.0,
                 1.0 / 12.0, 1.0 / 12.0, 1.0 / 6.0;
 
-            this->ddt *= CGeoTriangle<Real>::area();
+            this->ddt *= CGeoTriangle<Real>::area() * this->m_thickness;
 
             if (this->m_dt > 0.0)
                 this->ddt /= this->m_dt;
-- 
2.43.0


From 9af1029812ad1faf1cde25cd55a2ee467edd9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 35/92] fix: CFemLinearTemperatureBeam shares the convective
 flux between its two nodes

---
 trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
index 2952b94..accbbcf 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
@@ -30,11 +30,11 @@ namespace ENigMA
             template <typename Real>
             void CFemLinearTemperatureBeam<Real, 2, 1, 1>::setConvectionOnEdge(const Real h, const Real Tinf)
             {
-                CFemElement<Real>::source(0) += h * Tinf * this->m_perimeter * this->m_length;
-                CFemElement<Real>::source(1) += h * Tinf * this->m_perimeter * this->m_length;
+                CFemElement<Real>::source(0) += h * Tinf * this->m_perimeter * this->m_length * 0.5;
+                CFemElement<Real>::source(1) += h * Tinf * this->m_perimeter * this->m_length * 0.5;
 
-                CFemElement<Real>::laplacian(0, 0) += h * this->m_perimeter * this->m_length;
-                CFemElement<Real>::laplacian(1, 1) += h * this->m_perimeter * this->m_length;
+                CFemElement<Real>::laplacian(0, 0) += h * this->m_perimeter * this->m_length * 0.5;
+                CFemElement<Real>::laplacian(1, 1) += h * this->m_perimeter * this->m_length * 0.5;
             }
 
             template <typename Real>
-- 
2.43.0


From ff40d07b72d6508ab4bc6d625268b719cc0866b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 36/92] fix: CIntTriangle seven-point rule weighs the center
 with 9/80

---
 trunk/src/integration/IntTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/integration/IntTriangle_Imp.hpp b/trunk/src/integration/IntTriangle_Imp.hpp
index d34c764..b530f13 100644
--- a/trunk/src/integration/IntTriangle_Imp.hpp
+++ b/trunk/src/integration/IntTriangle_Imp.hpp
@@ -103,7 +103,7 @@ namespace ENigMA
                 const Real o7beta1[7] = { 3.33333333333333e-001, 1.01286507323457e-001, 1.01286507323457e-001, 7.97426985353088e-001, 4.70142064105115e-001, 4.70142064105115e-001, 5.97158717897699e-002 };
                 const Real o7beta2[7] = { 3.33333333333333e-001, 1.01286507323456e-001, 7.97426985353087e-001, 1.01286507323456e-001, 5.97158717897700e-002, 4.70142064105115e-001, 4.70142064105115e-001 };
                 const Real o7beta3[7] = { 3.33333333333333e-001, 7.97426985353087e-001, 1.01286507323456e-001, 1.01286507323456e-001, 4.70142064105115e-001, 5.97158717897700e-002, 4.70142064105115e-001 };
-                const Real o7wbeta[7] = { 1.12515000150000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
+                const Real o7wbeta[7] = { 1.12500000000000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
-- 
2.43.0


From e44e456df78bfc5db0eb4e9adebc9ded8776b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 37/92] fix: row scaling of a CSleSystem works for every scalar
 type

---
 trunk/src/sle/SleSystem_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 32e2d23..351bc57 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -190,7 +190,7 @@ namespace ENigMA
             aSystem.matrixA = right.matrixA;
             for (int k = 0; k < aSystem.matrixA.outerSize(); ++k)
             {
-                for (Eigen::SparseMatrix<double>::InnerIterator it(aSystem.matrixA, k); it; ++it)
+                for (typename Eigen::SparseMatrix<Real>::InnerIterator it(aSystem.matrixA, k); it; ++it)
                 {
                     aSystem.matrixA.coeffRef(it.row(), k) *= left[it.row()];
                 }
-- 
2.43.0


From cc2307de786ccb5b417045c9f5a7e1717595361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 38/92] fix: a CSleSystem with scaled rows is not solved as a
 symmetric system

---
 trunk/src/sle/SleSystem_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 351bc57..ff6cba4 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -187,6 +187,10 @@ namespace ENigMA
 
             aSystem.matrixType = right.matrixType;
 
+            // Scaling the rows breaks the symmetry
+            if (aSystem.matrixType == MT_SPARSE_SYMMETRIC)
+                aSystem.matrixType = MT_SPARSE;
+
             aSystem.matrixA = right.matrixA;
             for (int k = 0; k < aSystem.matrixA.outerSize(); ++k)
             {
-- 
2.43.0


From 706285145daee93d443c0c68533499a98bf6bbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 39/92] fix: the FEM ddt operators find elements by id and
 right side entries by node index

---
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp      |  6 +++---
 .../src/pde/fem/generic/FemGenericOperators_Imp.hpp  | 12 ++++++------
 .../src/pde/fem/thermal/FemThermalOperators_Imp.hpp  | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 5060b80..7105524 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -37,7 +37,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -67,7 +67,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -98,7 +98,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 070ac9e..89e5c2b 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -40,7 +40,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +68,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +97,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +126,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +155,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +184,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 4c2ee26..5e82bef 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -40,7 +40,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +68,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +97,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +126,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +155,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +184,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
-- 
2.43.0


From 6ed8013040cedb43bf17ed08c712d27a62090cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 40/92] fix: FEM flow divergence keeps the velocities in the
 field's scalar type

---
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 7105524..bfb553a 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -311,7 +311,7 @@ namespace ENigMA
                             aTriangle.setDensity(aMaterial.propertyValue(ENigMA::material::PT_DENSITY));
                             aTriangle.setViscosity(aMaterial.propertyValue(ENigMA::material::PT_VISCOSITY));
 
-                            double ue[3], ve[3];
+                            Real ue[3], ve[3];
 
                             for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
                             {
@@ -411,7 +411,7 @@ namespace ENigMA
                             aTetrahedron.setDensity(aMaterial.propertyValue(ENigMA::material::PT_DENSITY));
                             aTetrahedron.setViscosity(aMaterial.propertyValue(ENigMA::material::PT_VISCOSITY));
 
-                            double ue[4], ve[4], we[4];
+                            Real ue[4], ve[4], we[4];
 
                             for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
                             {
-- 
2.43.0


From 79f22e13d5f1c32e6b6bf0f0ad1a313363696f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 41/92] fix: FEM tetrahedron terms do not depend on the
 orientation of the nodes

---
 trunk/src/fem/FemTetrahedron_Imp.hpp           |  9 ++++++---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp  | 18 +++++++++---------
 .../FemConstantStrainTetrahedron_Imp.hpp       |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/trunk/src/fem/FemTetrahedron_Imp.hpp b/trunk/src/fem/FemTetrahedron_Imp.hpp
index f6c3e16..6a99f76 100644
--- a/trunk/src/fem/FemTetrahedron_Imp.hpp
+++ b/trunk/src/fem/FemTetrahedron_Imp.hpp
@@ -73,7 +73,7 @@ namespace ENigMA
                 0.05, 0.05, 0.10, 0.05,
                 0.05, 0.05, 0.05, 0.10;
 
-            this->ddt *= this->m_volume;
+            this->ddt *= std::fabs(this->m_volume);
 
             if (this->m_dt > 0.0)
                 this->ddt /= this->m_dt;
@@ -105,12 +105,12 @@ namespace ENigMA
                 ci, cj, ck, cl,
                 di, dj, dk, dl;
 
-            if (this->m_volume > 0.0)
+            if (this->m_volume != 0.0)
                 B *= 1.0 / (6.0 * this->m_volume);
 
             this->laplacian = -B.transpose() * B;
 
-            this->laplacian *= this->m_volume;
+            this->laplacian *= std::fabs(this->m_volume);
         }
 
         template <typename Real>
@@ -171,6 +171,9 @@ namespace ENigMA
             B << bi, bj, bk, bl,
                 ci, cj, ck, cl,
                 di, dj, dk, dl;
+
+            if (this->m_volume < 0.0)
+                B *= -1.0;
         }
 
         template <typename Real>
diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index aa252ec..647e715 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -79,63 +79,63 @@ namespace ENigMA
                     bk * bi, bk * bj, bk * bk, bk * bl,
                     bl * bi, bl * bj, bl * bk, bl * bl;
 
-                Ks1 *= ua * us / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks1 *= ua * us / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks2 << bi * ci, bi * cj, bi * ck, bi * cl,
                     bj * ci, bj * cj, bj * ck, bj * cl,
                     bk * ci, bk * cj, bk * ck, bk * cl,
                     bl * ci, bl * cj, bl * ck, bl * cl;
 
-                Ks2 *= ua * vs / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks2 *= ua * vs / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks3 << bi * di, bi * dj, bi * dk, bi * dl,
                     bj * di, bj * dj, bj * dk, bj * dl,
                     bk * di, bk * dj, bk * dk, bk * dl,
                     bl * di, bl * dj, bl * dk, bl * dl;
 
-                Ks3 *= ua * ws / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks3 *= ua * ws / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks4 << ci * bi, ci * bj, ci * bk, ci * bl,
                     cj * bi, cj * bj, cj * bk, cj * bl,
                     ck * bi, ck * bj, ck * bk, ck * bl,
                     cl * bi, cl * bj, cl * bk, cl * bl;
 
-                Ks4 *= va * us / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks4 *= va * us / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks5 << ci * ci, ci * cj, ci * ck, ci * cl,
                     cj * ci, cj * cj, cj * ck, cj * cl,
                     ck * ci, ck * cj, ck * ck, ck * cl,
                     cl * ci, cl * cj, cl * ck, cl * cl;
 
-                Ks5 *= va * vs / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks5 *= va * vs / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks6 << ci * di, ci * dj, ci * dk, ci * dl,
                     cj * di, cj * dj, cj * dk, cj * dl,
                     ck * di, ck * dj, ck * dk, ck * dl,
                     cl * di, cl * dj, cl * dk, cl * dl;
 
-                Ks6 *= va * ws / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks6 *= va * ws / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks7 << di * bi, di * bj, di * bk, di * bl,
                     dj * bi, dj * bj, dj * bk, dj * bl,
                     dk * bi, dk * bj, dk * bk, dk * bl,
                     dl * bi, dl * bj, dl * bk, dl * bl;
 
-                Ks7 *= wa * us / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks7 *= wa * us / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks8 << di * ci, di * cj, di * ck, di * cl,
                     dj * ci, dj * cj, dj * ck, dj * cl,
                     dk * ci, dk * cj, dk * ck, dk * cl,
                     dl * ci, dl * cj, dl * ck, dl * cl;
 
-                Ks8 *= wa * vs / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks8 *= wa * vs / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 Ks9 << di * di, di * dj, di * dk, di * dl,
                     dj * di, dj * dj, dj * dk, dj * dl,
                     dk * di, dk * dj, dk * dk, dk * dl,
                     dl * di, dl * dj, dl * dk, dl * dl;
 
-                Ks9 *= wa * ws / (144.0 * CGeoTetrahedron<Real>::volume());
+                Ks9 *= wa * ws / (144.0 * std::fabs(CGeoTetrahedron<Real>::volume()));
 
                 CFemElement<Real>::divergence = C - CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4 + Ks5 + Ks6 + Ks7 + Ks8 + Ks9);
             }
diff --git a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
index 119c69a..5f82c29 100644
--- a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
@@ -59,7 +59,7 @@ namespace ENigMA
                 D *= E / ((1.0 + v) * (1.0 - 2.0 * v));
 
                 CFemElement<Real>::laplacian = B.transpose() * D * B;
-                CFemElement<Real>::laplacian *= CGeoTetrahedron<Real>::volume();
+                CFemElement<Real>::laplacian *= std::fabs(CGeoTetrahedron<Real>::volume());
             }
 
             template <typename Real>
-- 
2.43.0


From 85dcefed74288315fe526184a30beb530e0bc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 42/92] fix: the cubic spline SPH kernel value agrees with its
 derivatives and unit integral

---
 trunk/src/sph/SphCubicSpline_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index ca4780f..3e746e1 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -56,9 +56,9 @@ namespace ENigMA
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
             if (q >= 0 && q < 1.0)
-                return CSphKernel<Real>::m_C * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
+                return CSphKernel<Real>::m_C * 0.25 * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
             else
-                return CSphKernel<Real>::m_C * (2 - q) * (2 - q) * (2 - q);
+                return CSphKernel<Real>::m_C * 0.25 * (2 - q) * (2 - q) * (2 - q);
         }
 
         template <typename Real>
-- 
2.43.0


From 65f2c33083e9b6e8ac1bb492f41755d9eb1b8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 43/92] fix: SPH kernels integrate to one in 1D and 3D

---
 trunk/src/sph/SphConvex_Imp.hpp   | 6 +++---
 trunk/src/sph/SphGaussian_Imp.hpp | 6 +++---
 trunk/src/sph/SphQuintic_Imp.hpp  | 6 +++---
 trunk/src/sph/SphSpiky_Imp.hpp    | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 90267ff..3d182a0 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphGaussian_Imp.hpp b/trunk/src/sph/SphGaussian_Imp.hpp
index 4f0d1b3..0dbbaee 100644
--- a/trunk/src/sph/SphGaussian_Imp.hpp
+++ b/trunk/src/sph/SphGaussian_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * exp(-q * q);
         }
@@ -74,7 +74,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * 2 * exp(-q * q) * r;
         }
@@ -92,7 +92,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             Real w = exp(-q * q);
             Real dw = -2.0 * q * w;
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 7fd6c46..39986c4 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 68d2f09..013ab9f 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -75,7 +75,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -94,7 +94,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-- 
2.43.0


From 27e0de2bc0d4a3347467e9e8d4284e00ff03cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 44/92] fix: CSphParticles advects along the velocity

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index c99bfaf..cc0b862 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -124,8 +124,8 @@ namespace ENigMA
                 CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                 aNode1.x() += m_particles[i].velocity.x() * m_dt;
-                aNode1.y() += m_particles[i].velocity.z() * m_dt;
-                aNode1.z() += m_particles[i].velocity.y() * m_dt;
+                aNode1.y() += m_particles[i].velocity.y() * m_dt;
+                aNode1.z() += m_particles[i].velocity.z() * m_dt;
 
                 if (m_bCyclic)
                 {
-- 
2.43.0


From 7890f9e87fe82496f6a43a2111478caa052d97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 45/92] fix: CSphConvex gradient uses the derivative of the
 kernel

---
 trunk/src/sph/SphConvex_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 3d182a0..a4f5309 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (128.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
         }
 
         template <typename Real>
-- 
2.43.0


From 9abad4cb8100674bc8db3a20c7451829bd1552aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 46/92] fix: removing a face from a CFvmMesh keeps the face
 indices valid

---
 trunk/src/fvm/FvmMesh_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/fvm/FvmMesh_Imp.hpp b/trunk/src/fvm/FvmMesh_Imp.hpp
index 0243f84..d30af4b 100644
--- a/trunk/src/fvm/FvmMesh_Imp.hpp
+++ b/trunk/src/fvm/FvmMesh_Imp.hpp
@@ -205,6 +205,13 @@ namespace ENigMA
 
             if (it != m_faceIds.end())
                 m_faceIds.erase(it);
+
+            // Keep indices in line with the positions
+            m_faceIndices.clear();
+            m_faceIndex = 0;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)
+                m_faceIndices[m_faceIds[i]] = m_faceIndex++;
         }
 
         template <typename Real>
-- 
2.43.0


From 67d1222dd9c1ea77ecc8b772d5827a3918a6cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 47/92] fix: CFvmControlVolume recalculates surface area and
 centroid when asked to

---
 trunk/src/fvm/FvmControlVolume_Imp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/fvm/FvmControlVolume_Imp.hpp b/trunk/src/fvm/FvmControlVolume_Imp.hpp
index 0fab31e..3eda33c 100644
--- a/trunk/src/fvm/FvmControlVolume_Imp.hpp
+++ b/trunk/src/fvm/FvmControlVolume_Imp.hpp
@@ -232,12 +232,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateSurfaceArea();
+                    m_clippedPolyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_clippedPolyhedron.surfaceArea();
                 }
                 else
                 {
-                    m_polyhedron.calculateSurfaceArea();
+                    m_polyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_polyhedron.surfaceArea();
                 }
 
@@ -256,12 +256,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateCentroid();
+                    m_clippedPolyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_clippedPolyhedron.centroid();
                 }
                 else
                 {
-                    m_polyhedron.calculateCentroid();
+                    m_polyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_polyhedron.centroid();
                 }
 
-- 
2.43.0


From 7837f33d807051de1ed247cc6e0a019f14382c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 48/92] fix: FVM divergence moves boundary values to the right
 side with their sign

---
 trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp       | 2 +-
 trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp | 2 +-
 trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
index c52c828..5415076 100644
--- a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
@@ -207,7 +207,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index caa7534..97ec7d3 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -215,7 +215,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index e348b10..97e200c 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -211,7 +211,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
-- 
2.43.0


From 4269fc5f5d273f588315e871e34f737e9eaf3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 49/92] fix: FVM ddt keeps the value of cells at fixed
 boundaries

---
 .../fvm/generic/FvmGenericOperators_Imp.hpp   | 24 +------------------
 .../fvm/thermal/FvmThermalOperators_Imp.hpp   | 24 +------------------
 2 files changed, 2 insertions(+), 46 deletions(-)

diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index 97ec7d3..d6eebbf 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -34,30 +34,8 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        Integer anElementId = aField.mesh().elementId(el);
-
-                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
-
-                        Real value = aField.u[el];
-                        for (Integer i = 0; i < anElement.nbFaceIds(); ++i)
-                        {
-                            Integer aFaceId = anElement.faceId(i);
-
-                            // Check if it has boundary condition
-                            if (aField.faceHasBC(aFaceId))
-                            {
-                                CPdeBoundaryCondition<Real> aCondition = aField.faceBC(aFaceId);
-                                if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
-                                {
-                                    value = aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
-                                    break;
-                                }
-                            }
-
-                        }
-
                         aSystem.matrixA.coeffRef(el, el) += 1.0;
-                        aSystem.vectorB[el] += value;
+                        aSystem.vectorB[el] += aField.u[el];
                     }
 
                     aSystem.matrixA.finalize();
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index 97e200c..a15a73a 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -30,30 +30,8 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        Integer anElementId = aField.mesh().elementId(el);
-
-                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
-
-                        Real value = aField.u[el];
-                        for (Integer i = 0; i < anElement.nbFaceIds(); ++i)
-                        {
-                            Integer aFaceId = anElement.faceId(i);
-
-                            // Check if it has boundary condition
-                            if (aField.faceHasBC(aFaceId))
-                            {
-                                CPdeBoundaryCondition<Real> aCondition = aField.faceBC(aFaceId);
-                                if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
-                                {
-                                    value = aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
-                                    break;
-                                }
-                            }
-
-                        }
-
                         aSystem.matrixA.coeffRef(el, el) += 1.0;
-                        aSystem.vectorB[el] += value;
+                        aSystem.vectorB[el] += aField.u[el];
                     }
 
                     aSystem.matrixA.finalize();
-- 
2.43.0


From e6733aec09877da74eab47aaa79491588eee38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 50/92] fix: CFvmTemperatureSolver averages the properties of
 each face on their own

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 807ec14..588d05d 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -96,15 +96,14 @@ namespace ENigMA
 
                 Integer anIndexP = CFvmPisoSolver<Real>::m_mapIdToIndex.at(aControlVolumeId);
 
-                Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
-                Real visc = CFvmPisoSolver<Real>::m_visc.at(aControlVolumeId);
-                Real thcond = m_thcond.at(aControlVolumeId);
-                Real spheat = m_spheat.at(aControlVolumeId);
-
                 for (Integer j = 0; j < CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).nbFaces(); ++j)
                 {
                     Integer aFaceId = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceId(j);
 
+                    Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+                    Real thcond = m_thcond.at(aControlVolumeId);
+                    Real spheat = m_spheat.at(aControlVolumeId);
+
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -173,6 +172,9 @@ namespace ENigMA
                 if (CFvmPisoSolver<Real>::m_dt > 0)
                 {
                     // Unsteady term - Euler
+                    Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+                    Real spheat = m_spheat.at(aControlVolumeId);
+
                     A.coeffRef(anIndexP, anIndexP) += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt;
                     b[anIndexP] += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt * m_T0.at(aControlVolumeId);
                 }
-- 
2.43.0


From 47eac1060c25b2f531d85bcacd1a096fd9e746d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 51/92] fix: CFvmTemperatureSolver conducts heat through
 boundary faces as out of the cell

---
 trunk/src/solvers/FvmTemperatureSolver.hpp     | 2 --
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 6 +-----
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver.hpp b/trunk/src/solvers/FvmTemperatureSolver.hpp
index 3b6754d..d8a78ba 100644
--- a/trunk/src/solvers/FvmTemperatureSolver.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver.hpp
@@ -23,8 +23,6 @@ namespace ENigMA
 
             bool m_calcT;
 
-            Real m_bthcond; // Boundary thermal conductivity
-
             varMap m_thcond; // Cell thermal conductivity
             varMap m_spheat; // Cell specific heat
 
diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 588d05d..fe79a1f 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -18,7 +18,6 @@ namespace ENigMA
         template <typename Real>
         CFvmTemperatureSolver<Real>::CFvmTemperatureSolver(CFvmMesh<Real>& aFvmMesh)
             : CFvmPisoSolver<Real>::CFvmPisoSolver(aFvmMesh)
-            , m_bthcond(1.0)
         {
             for (Integer i = 0; i < CFvmPisoSolver<Real>::m_fvmMesh.nbControlVolumes(); ++i)
             {
@@ -150,12 +149,9 @@ namespace ENigMA
                     }
                     else
                     {
-                        thcond += m_bthcond;
-                        thcond *= 0.5;
-
                         // Conduction
                         A.coeffRef(anIndexP, anIndexP) += thcond * area / dist;
-                        b[anIndexP] += thcond * area / dist / volume * m_Tf.at(aFaceId);
+                        b[anIndexP] += thcond * area / dist * m_Tf.at(aFaceId);
 
                         // Convection
                         Real xsi;
-- 
2.43.0


From d582e33f90094035609e8992ef861af6bcf93d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 52/92] fix: CFvmPisoSolver predicts the velocity against the
 pressure gradient

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index c50501b..ec87ca3 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -308,9 +308,9 @@ namespace ENigMA
                 // Source - pressure
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                bu[anIndexP] += gradp.x();
-                bv[anIndexP] += gradp.y();
-                bw[anIndexP] += gradp.z();
+                bu[anIndexP] -= gradp.x();
+                bv[anIndexP] -= gradp.y();
+                bw[anIndexP] -= gradp.z();
 
                 if (m_dt > 0.0)
                 {
@@ -339,9 +339,9 @@ namespace ENigMA
 
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                m_Hu[aControlVolumeId] = bu[k] - gradp.x();
-                m_Hv[aControlVolumeId] = bv[k] - gradp.y();
-                m_Hw[aControlVolumeId] = bw[k] - gradp.z();
+                m_Hu[aControlVolumeId] = bu[k] + gradp.x();
+                m_Hv[aControlVolumeId] = bv[k] + gradp.y();
+                m_Hw[aControlVolumeId] = bw[k] + gradp.z();
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
-- 
2.43.0


From cee4651e57ce42261bfccbe59f85e4835cede63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 53/92] fix: CFvmPisoSolver sums the neighbours of the row in H

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index ec87ca3..21bd91c 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -342,17 +342,23 @@ namespace ENigMA
                 m_Hu[aControlVolumeId] = bu[k] + gradp.x();
                 m_Hv[aControlVolumeId] = bv[k] + gradp.y();
                 m_Hw[aControlVolumeId] = bw[k] + gradp.z();
+            }
+
+            for (int k = 0; k < A.outerSize(); ++k)
+            {
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
 
+                    Integer aControlVolumeId = m_mapIndexToId.at(static_cast<Integer>(it.row()));
+
                     if (it.row() == it.col())
                         m_ap[aControlVolumeId] = it.value();
                     else
                     {
-                        m_Hu.at(aControlVolumeId) += -it.value() * u[k];
-                        m_Hv.at(aControlVolumeId) += -it.value() * v[k];
-                        m_Hw.at(aControlVolumeId) += -it.value() * w[k];
+                        m_Hu.at(aControlVolumeId) += -it.value() * u[it.col()];
+                        m_Hv.at(aControlVolumeId) += -it.value() * v[it.col()];
+                        m_Hw.at(aControlVolumeId) += -it.value() * w[it.col()];
                     }
                 }
             }
-- 
2.43.0


From c2abb35961b0c2319d20430f4d55e922cfd8f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 54/92] fix: CFvmPisoSolver counts boundary fluxes outwards
 like the others

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 34 ++++++++++++-------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 21bd91c..f24bf0c 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -237,8 +237,6 @@ namespace ENigMA
                     Real dens = m_dens.at(aControlVolumeId);
                     Real visc = m_visc.at(aControlVolumeId);
 
-                    CGeoNormal<Real>& aNormal = m_fvmMesh.controlVolume(aControlVolumeId).faceNormal(aFaceId);
-
                     Real area = m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -294,9 +292,9 @@ namespace ENigMA
                         bw[anIndexP] += visc * m_wf[aFaceId] * area / dist / volume;
 
                         // Convection
-                        bu[anIndexP] += -dens * m_uf[aFaceId] * area * flux * aNormal.x() / volume;
-                        bv[anIndexP] += -dens * m_vf[aFaceId] * area * flux * aNormal.y() / volume;
-                        bw[anIndexP] += -dens * m_wf[aFaceId] * area * flux * aNormal.z() / volume;
+                        bu[anIndexP] += -dens * m_uf[aFaceId] * flux / volume;
+                        bv[anIndexP] += -dens * m_vf[aFaceId] * flux / volume;
+                        bw[anIndexP] += -dens * m_wf[aFaceId] * flux / volume;
                     }
                 }
 
@@ -451,9 +449,9 @@ namespace ENigMA
 
                             // specified flux
                             // pressure gradient = 0
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            m_flux[aFaceId] = (m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
 
-                            m_flux[aFaceId] = -(m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
@@ -464,13 +462,13 @@ namespace ENigMA
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
@@ -480,13 +478,13 @@ namespace ENigMA
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                         }
                     }
                 }
@@ -563,7 +561,7 @@ namespace ENigMA
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
 
-                            m_flux[aFaceId] += area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
+                            m_flux[aFaceId] -= area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
-- 
2.43.0


From 08d6c1f2443e86830baad5fcb88fe62ebf2de287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 55/92] fix: CFvmPisoSolver keeps prescribed pressures

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index f24bf0c..ad0f11a 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -595,6 +595,16 @@ namespace ENigMA
         void CFvmPisoSolver<Real>::correctPressureField()
         {
 
+            // A prescribed pressure sets the level
+            for (Integer i = 0; i < m_fvmMesh.nbFaces(); ++i)
+            {
+
+                CFvmFace<Real>& aFace = m_fvmMesh.face(m_fvmMesh.faceId(i));
+
+                if (!aFace.hasPair() && (aFace.boundaryType() == BT_INLET_PRESSURE || aFace.boundaryType() == BT_OUTLET))
+                    return;
+            }
+
             Real p_min = std::numeric_limits<Real>::max();
 
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
-- 
2.43.0


From 6e50f015671acc8ab73857768d6ec2708343fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 56/92] fix: CFvmVofSolver weighs faces the same whichever way
 they point

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 8f3ba72..8292721 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -170,7 +170,7 @@ namespace ENigMA
 
                         grads = this->gradient(m_s, m_sf, aDonor);
 
-                        dot = grads.dot(CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).normal()) * dist;
+                        dot = -grads.dot(CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).normal()) * dist;
 
                         l1 = grads.norm();
                         l2 = dist;
@@ -283,7 +283,7 @@ namespace ENigMA
                             aDonor = aNeighborId;
                         }
 
-                        Real Cj = std::min(std::max(-flux * area * dt / volume, 0.0), 1.0);
+                        Real Cj = std::min(std::fabs(flux) * area * dt / volume, 1.0);
 
                         Real ds = 0.5 * (m_s0[anAcceptor] + m_s[anAcceptor]) - 0.5 * (m_s0[aDonor] + m_s[aDonor]);
 
-- 
2.43.0


From 1ddd7490260a9322df2a02e8a3ac10e329749464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 57/92] fix: CFvmVofSolver takes the area of a face into the
 Courant number once

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 8292721..89c10d6 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -119,9 +119,7 @@ namespace ENigMA
                     else
                         flux = -CFvmPisoSolver<Real>::m_flux.at(aFaceId);
 
-                    Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
-
-                    Real Cj = std::max(-flux * area * dt / volume, 0.0);
+                    Real Cj = std::max(-flux * dt / volume, 0.0);
                     Cpp += cs * Cj;
                 }
 
@@ -261,8 +259,6 @@ namespace ENigMA
                 {
                     Integer aNeighborId = CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).neighborId(aControlVolumeId);
 
-                    Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
-
                     Real flux;
 
                     if (CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).controlVolumeId() == aControlVolumeId)
@@ -283,7 +279,7 @@ namespace ENigMA
                             aDonor = aNeighborId;
                         }
 
-                        Real Cj = std::min(std::fabs(flux) * area * dt / volume, 1.0);
+                        Real Cj = std::min(std::fabs(flux) * dt / volume, 1.0);
 
                         Real ds = 0.5 * (m_s0[anAcceptor] + m_s[anAcceptor]) - 0.5 * (m_s0[aDonor] + m_s[aDonor]);
 
-- 
2.43.0


From c9451dae17c2fbae32ef34383c51081e3aa424dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 58/92] fix: CFvmPisoSolver fixes the pressure level of closed
 domains

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index ad0f11a..746e66a 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -375,6 +375,8 @@ namespace ENigMA
             b.resize(m_fvmMesh.nbControlVolumes());
             b.setZero();
 
+            bool bLevel = false;
+
             // Assemble pressure matrix
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
             {
@@ -459,6 +461,8 @@ namespace ENigMA
                             // specified pressure
                             // velocity gradient = 0
 
+                            bLevel = true;
+
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
 
@@ -476,6 +480,8 @@ namespace ENigMA
                             // specified pressure = 0
                             // velocity gradient = 0
 
+                            bLevel = true;
+
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
                             m_flux[aFaceId] = Hf / apj * area;
@@ -490,6 +496,10 @@ namespace ENigMA
                 }
             }
 
+            // Without a prescribed pressure the level is free, keep it at zero in the first cell
+            if (!bLevel && m_fvmMesh.nbControlVolumes() > 0)
+                A.coeffRef(0, 0) += (m_fvmMesh.nbControlVolumes() > 1) ? A.coeff(0, 0) : static_cast<Real>(-1.0);
+
             A.finalize();
 
             Eigen::ConjugateGradient<Eigen::SparseMatrix<Real>> solver;
-- 
2.43.0


From 66a5aa4052f64bdaa638cc65a748d15b5c05e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 59/92] fix: CSleSystem solves directly when BiCGSTAB breaks
 down

---
 trunk/src/sle/SleSystem_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index ff6cba4..b6a524b 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -71,6 +71,18 @@ namespace ENigMA
                 solver.compute(matrixA);
                 x = solver.solve(vectorB);
 
+                // The iteration may break down
+                if (solver.info() != Eigen::Success)
+                {
+                    Eigen::SparseLU<Eigen::SparseMatrix<Real, Eigen::ColMajor>, Eigen::COLAMDOrdering<Integer>> directSolver;
+
+                    directSolver.analyzePattern(matrixA);
+                    directSolver.factorize(matrixA);
+
+                    if (directSolver.info() == Eigen::Success)
+                        x = directSolver.solve(vectorB);
+                }
+
 #endif
             }
             else if (matrixType == MT_DENSE)
-- 
2.43.0


From 1307db9c4536be480c87a537f0a24fb1f817b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 60/92] fix: FVM solvers solve directly when BiCGSTAB breaks
 down

---
 trunk/src/solvers/FvmPisoSolver.hpp           |  4 +++
 trunk/src/solvers/FvmPisoSolver_Imp.hpp       | 30 +++++++++++++++----
 .../src/solvers/FvmTemperatureSolver_Imp.hpp  |  5 +---
 trunk/src/solvers/FvmVofSolver_Imp.hpp        |  5 +---
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver.hpp b/trunk/src/solvers/FvmPisoSolver.hpp
index b8a2bca..660548d 100644
--- a/trunk/src/solvers/FvmPisoSolver.hpp
+++ b/trunk/src/solvers/FvmPisoSolver.hpp
@@ -12,6 +12,8 @@
 #include <map>
 #include <vector>
 
+#include <Eigen/Sparse>
+
 #include "GeoHashGrid.hpp"
 
 #include "FvmMesh.hpp"
@@ -63,6 +65,8 @@ namespace ENigMA
 
             virtual void storePreviousQuantities();
 
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> solveSystem(const Eigen::SparseMatrix<Real>& A, const Eigen::Matrix<Real, Eigen::Dynamic, 1>& b);
+
             virtual void calculateVelocityField();
             virtual void calculatePressureField();
 
diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 746e66a..dc938b8 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -194,6 +194,27 @@ namespace ENigMA
             }
         }
 
+        template <typename Real>
+        Eigen::Matrix<Real, Eigen::Dynamic, 1> CFvmPisoSolver<Real>::solveSystem(const Eigen::SparseMatrix<Real>& A, const Eigen::Matrix<Real, Eigen::Dynamic, 1>& b)
+        {
+            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>> solver;
+            solver.compute(A);
+
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> x = solver.solve(b);
+
+            // The iteration may break down
+            if (solver.info() != Eigen::Success)
+            {
+                Eigen::SparseLU<Eigen::SparseMatrix<Real>> directSolver;
+                directSolver.compute(A);
+
+                if (directSolver.info() == Eigen::Success)
+                    x = directSolver.solve(b);
+            }
+
+            return x;
+        }
+
         template <typename Real>
         void CFvmPisoSolver<Real>::calculateVelocityField()
         {
@@ -323,12 +344,9 @@ namespace ENigMA
 
             A.finalize();
 
-            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>> solver;
-            solver.compute(A);
-
-            Eigen::Matrix<Real, Eigen::Dynamic, 1> u = solver.solve(bu);
-            Eigen::Matrix<Real, Eigen::Dynamic, 1> v = solver.solve(bv);
-            Eigen::Matrix<Real, Eigen::Dynamic, 1> w = solver.solve(bw);
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> u = this->solveSystem(A, bu);
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> v = this->solveSystem(A, bv);
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> w = this->solveSystem(A, bw);
 
             for (int k = 0; k < A.outerSize(); ++k)
             {
diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index fe79a1f..5b77585 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -178,10 +178,7 @@ namespace ENigMA
 
             A.finalize();
 
-            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>> solver;
-            solver.compute(A);
-
-            Eigen::Matrix<Real, Eigen::Dynamic, 1> T = solver.solve(b);
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> T = this->solveSystem(A, b);
 
             for (int i = 0; i < T.rows(); ++i)
             {
diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 89c10d6..8e531a8 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -412,10 +412,7 @@ namespace ENigMA
 
             A.finalize();
 
-            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>> solver;
-            solver.compute(A);
-
-            Eigen::Matrix<Real, Eigen::Dynamic, 1> s = solver.solve(b);
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> s = this->solveSystem(A, b);
 
             for (int i = 0; i < s.rows(); ++i)
             {
-- 
2.43.0


From a37cc6378e3114dc84b4e3d1b3f5d26ff0a9d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 61/92] fix: CCsgBspNode keeps the polygon that defines its
 plane, so building ends

---
 trunk/src/csg/CsgBspNode_Imp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBspNode_Imp.hpp b/trunk/src/csg/CsgBspNode_Imp.hpp
index 7d5736f..8c5346d 100644
--- a/trunk/src/csg/CsgBspNode_Imp.hpp
+++ b/trunk/src/csg/CsgBspNode_Imp.hpp
@@ -134,7 +134,10 @@ namespace ENigMA
             std::vector<CGeoPolygon<Real>> sFront;
             std::vector<CGeoPolygon<Real>> sBack;
 
-            for (Integer i = 0; i < static_cast<Integer>(sPolygons.size()); ++i)
+            // The first polygon lies on its own plane, whatever the tolerance
+            this->m_polygons.push_back(sPolygons[0]);
+
+            for (Integer i = 1; i < static_cast<Integer>(sPolygons.size()); ++i)
                 this->splitPolygon(sPolygons[i], this->m_polygons, this->m_polygons, sFront, sBack);
 
             if (sFront.size() > 0)
-- 
2.43.0


From fcdc7266549e5a7f6d2c35baa693970d807fc4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 62/92] fix: CCsgBoolean::subtract removes coplanar faces
 whichever way they look

---
 trunk/src/csg/CsgBoolean_Imp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBoolean_Imp.hpp b/trunk/src/csg/CsgBoolean_Imp.hpp
index 45c313f..56d0876 100644
--- a/trunk/src/csg/CsgBoolean_Imp.hpp
+++ b/trunk/src/csg/CsgBoolean_Imp.hpp
@@ -111,7 +111,10 @@ namespace ENigMA
 
             a.invert();
             a.clipTo(b);
-            b.clipTo(a, true);
+            b.clipTo(a);
+            b.invert();
+            b.clipTo(a);
+            b.invert();
             a.build(b.allPolygons());
             a.invert();
 
-- 
2.43.0


From 80316205b90b6e22db49be97297e89033ac91c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 63/92] fix: CCsgBspNode without polygons is empty space and
 clips as such

---
 trunk/src/csg/CsgBspNode.hpp     |  2 ++
 trunk/src/csg/CsgBspNode_Imp.hpp | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBspNode.hpp b/trunk/src/csg/CsgBspNode.hpp
index d7ba0a8..d5d2c92 100644
--- a/trunk/src/csg/CsgBspNode.hpp
+++ b/trunk/src/csg/CsgBspNode.hpp
@@ -26,6 +26,8 @@ namespace ENigMA
             CCsgBspNode<Real>* m_front;
             CCsgBspNode<Real>* m_back;
 
+            bool m_bPlane; // without a plane the node is empty space, or full space when inverted
+            bool m_bFull;
             ENigMA::geometry::CGeoPlane<Real> m_plane;
 
             std::vector<ENigMA::geometry::CGeoPolygon<Real>> m_polygons;
diff --git a/trunk/src/csg/CsgBspNode_Imp.hpp b/trunk/src/csg/CsgBspNode_Imp.hpp
index 8c5346d..8994e49 100644
--- a/trunk/src/csg/CsgBspNode_Imp.hpp
+++ b/trunk/src/csg/CsgBspNode_Imp.hpp
@@ -22,6 +22,8 @@ namespace ENigMA
             : m_tolerance(aTolerance)
             , m_front(nullptr)
             , m_back(nullptr)
+            , m_bPlane(false)
+            , m_bFull(false)
         {
             if (sPolygons.size() > 0)
                 this->build(sPolygons);
@@ -32,6 +34,8 @@ namespace ENigMA
             : m_tolerance(aTolerance)
             , m_front(nullptr)
             , m_back(nullptr)
+            , m_bPlane(false)
+            , m_bFull(false)
         {
         }
 
@@ -46,7 +50,10 @@ namespace ENigMA
             for (Integer i = 0; i < static_cast<Integer>(this->m_polygons.size()); ++i)
                 this->m_polygons[i].invert();
 
-            this->m_plane.invert();
+            if (this->m_bPlane)
+                this->m_plane.invert();
+
+            this->m_bFull = !this->m_bFull;
 
             if (this->m_front)
                 this->m_front->invert();
@@ -63,6 +70,14 @@ namespace ENigMA
             std::vector<CGeoPolygon<Real>> sFront;
             std::vector<CGeoPolygon<Real>> sBack;
 
+            if (!this->m_bPlane)
+            {
+                if (!this->m_bFull)
+                    sFront = sPolygons;
+
+                return sFront;
+            }
+
             for (Integer i = 0; i < static_cast<Integer>(sPolygons.size()); ++i)
             {
                 if (removeCoplanarFront)
@@ -130,6 +145,7 @@ namespace ENigMA
 
             Real d = sPolygons[0].normal().dot(sPolygons[0].polyline().vertex(0));
             this->m_plane.set(sPolygons[0].normal(), d);
+            this->m_bPlane = true;
 
             std::vector<CGeoPolygon<Real>> sFront;
             std::vector<CGeoPolygon<Real>> sBack;
-- 
2.43.0


From c34d3e31444a1573166f3d0506b0e2f02cb6cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 64/92] fix: CStlUtils::load reads files of a few facets

---
 trunk/src/stl/StlUtils_Imp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 9a289ca..97a52f2 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -99,8 +99,11 @@ namespace ENigMA
                 // Check for binary or ASCII file
                 fileSTL.seekg(HEADER_SIZE);
 
-                char chtest[256];
-                fileSTL.read(chtest, sizeof(chtest));
+                char chtest[257] = { 0 };
+                fileSTL.read(chtest, sizeof(chtest) - 1);
+
+                // Small files end before
+                fileSTL.clear();
 
                 if (fileSTL)
                 {
-- 
2.43.0


From 265b817e288cbc959720641b3c7199f778c8c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 65/92] fix: CStlUtils::removeDuplicateFacets does not look up
 facets it removed

---
 trunk/src/stl/StlUtils_Imp.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 97a52f2..8349659 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -12,6 +12,7 @@
 #pragma warning(disable : 4996)
 
 #include <fstream>
+#include <set>
 
 #include "GeoHashGrid.hpp"
 
@@ -490,9 +491,19 @@ namespace ENigMA
 
             aHashGrid.build();
 
+            std::vector<Integer> sFacetIds;
+
             for (Integer i = 0; i < m_stlFile.nbFacets(); ++i)
+                sFacetIds.emplace_back(m_stlFile.facetId(i));
+
+            std::set<Integer> sRemovedIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(sFacetIds.size()); ++i)
             {
-                Integer aFacetId = m_stlFile.facetId(i);
+                Integer aFacetId = sFacetIds[i];
+
+                if (sRemovedIds.find(aFacetId) != sRemovedIds.end())
+                    continue;
 
                 m_stlFile.facet(aFacetId).calculateArea();
 
@@ -502,10 +513,13 @@ namespace ENigMA
 
                 aHashGrid.find(sCoordinates, aCenterCoordinate, aTolerance);
 
-                for (Integer k = 1; k < static_cast<Integer>(sCoordinates.size()); ++k)
+                for (Integer k = 0; k < static_cast<Integer>(sCoordinates.size()); ++k)
                 {
                     Integer wFacetId = sCoordinates.at(k);
 
+                    if (wFacetId == aFacetId || sRemovedIds.find(wFacetId) != sRemovedIds.end())
+                        continue;
+
                     m_stlFile.facet(wFacetId).calculateArea();
 
                     Real area_diff = std::fabs(m_stlFile.facet(aFacetId).area() - m_stlFile.facet(wFacetId).area());
@@ -514,7 +528,7 @@ namespace ENigMA
                     {
                         // Remove this facet
                         this->removeFacet(wFacetId);
-                        i--;
+                        sRemovedIds.insert(wFacetId);
                     }
                 }
             }
-- 
2.43.0


From d3a7a6b9c02dc3cacaa8dd35a0579a07cd349ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 66/92] fix: CStlUtils refers to facets by id instead of index
 when splitting, relaxing and collapsing

---
 trunk/src/stl/StlUtils_Imp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 8349659..118e3f8 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -886,7 +886,7 @@ namespace ENigMA
                         aNewFacet1.edge(0).setNeighbor(-1);
 
                     aNewFacet1.edge(1).setNeighbor(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).neighbor());
-                    aNewFacet1.edge(2).setNeighbor(i);
+                    aNewFacet1.edge(2).setNeighbor(aFacetId);
 
                     aNewFacet1.edge(0).setWhichVertexNot(1);
                     aNewFacet1.edge(1).setWhichVertexNot(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).whichVertexNot());
@@ -898,13 +898,13 @@ namespace ENigMA
 
                     if (neighbor_c != -1)
                     {
-                        m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                        m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(aNewFacetId1);
                         m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                     }
 
                     // Facet: i
                     m_stlFile.facet(aFacetId).setVertex((bedg + 1) % 3, pn);
-                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNeighbor(aNewFacetId1);
                     m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setWhichVertexNot(1);
 
                     // Add new facet 1
@@ -937,13 +937,13 @@ namespace ENigMA
 
                         if (neighbor_c != -1)
                         {
-                            m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                            m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(aNewFacetId2);
                             m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                         }
 
                         // Facet: neighbor
                         m_stlFile.facet(neighbor).setVertex((vertexNot + 1) % 3, pn);
-                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNeighbor(m_stlFile.nbFacets());
+                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNeighbor(aNewFacetId2);
                         m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setWhichVertexNot(2);
 
                         // Add new facet 2
@@ -1034,7 +1034,7 @@ namespace ENigMA
                         aNextFacet = aNeighbor;
                         aNextEdge = (aVertexNot + 2) % 3;
 
-                    } while (aNextFacet != i);
+                    } while (aNextFacet != aFacetId);
 
                     if (fixedNode == true)
                         continue;
@@ -1373,7 +1373,7 @@ namespace ENigMA
                         break;
                     }
 
-                } while (aNextFacet != i);
+                } while (aNextFacet != aFacetId);
 
                 if (fixedNode)
                     continue;
-- 
2.43.0


From f68f9d845338c01e208308498ad13a79a3848445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 67/92] fix: CStlUtils recalculates normals and areas of facets
 whose vertices changed

---
 trunk/src/stl/StlUtils_Imp.hpp | 76 +++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 118e3f8..6ca4472 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -505,7 +505,7 @@ namespace ENigMA
                 if (sRemovedIds.find(aFacetId) != sRemovedIds.end())
                     continue;
 
-                m_stlFile.facet(aFacetId).calculateArea();
+                m_stlFile.facet(aFacetId).calculateArea(true);
 
                 std::vector<Integer> sCoordinates;
 
@@ -520,7 +520,7 @@ namespace ENigMA
                     if (wFacetId == aFacetId || sRemovedIds.find(wFacetId) != sRemovedIds.end())
                         continue;
 
-                    m_stlFile.facet(wFacetId).calculateArea();
+                    m_stlFile.facet(wFacetId).calculateArea(true);
 
                     Real area_diff = std::fabs(m_stlFile.facet(aFacetId).area() - m_stlFile.facet(wFacetId).area());
 
@@ -878,7 +878,7 @@ namespace ENigMA
                     aNewFacet1.addVertex(p[(bedg + 1) % 3]);
                     aNewFacet1.addVertex(p[(bedg + 2) % 3]);
 
-                    aNewFacet1.calculateNormal();
+                    aNewFacet1.calculateNormal(true);
 
                     if (neighbor != -1)
                         aNewFacet1.edge(0).setNeighbor(aNewFacetId2);
@@ -921,7 +921,7 @@ namespace ENigMA
                         aNewFacet2.addVertex(p3);
                         aNewFacet2.addVertex(p[(bedg + 1) % 3]);
 
-                        aNewFacet2.calculateNormal();
+                        aNewFacet2.calculateNormal(true);
 
                         aNewFacet2.edge(0).setNeighbor(neighbor);
                         aNewFacet2.edge(1).setNeighbor(m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).neighbor());
@@ -1055,12 +1055,12 @@ namespace ENigMA
                     {
                         CGeoNormal<Real> normal_i, normal_f;
 
-                        aFacet_i[k].calculateNormal();
+                        aFacet_i[k].calculateNormal(true);
                         normal_i = aFacet_i[k].normal();
 
                         aFacet_f[k].setVertex((whichVertex[k] + 1) % 3, aNewVertex);
 
-                        aFacet_f[k].calculateNormal();
+                        aFacet_f[k].calculateNormal(true);
                         normal_f = aFacet_f[k].normal();
 
                         if (std::fabs(normal_f.angle(normal_i)) > 0.5)
@@ -1085,7 +1085,7 @@ namespace ENigMA
             {
                 Integer aFacetId = m_stlFile.facetId(i);
 
-                m_stlFile.facet(aFacetId).calculateNormal();
+                m_stlFile.facet(aFacetId).calculateNormal(true);
             }
 
             for (Integer i = 0; i < m_stlFile.nbFacets(); ++i)
@@ -1138,7 +1138,7 @@ namespace ENigMA
                 CGeoCoordinate<Real> p1 = m_stlFile.facet(aFacetId).vertex(1);
                 CGeoCoordinate<Real> p2 = m_stlFile.facet(aFacetId).vertex(2);
 
-                m_stlFile.facet(aFacetId).calculateNormal();
+                m_stlFile.facet(aFacetId).calculateNormal(true);
                 CGeoNormal<Real> normal_i = m_stlFile.facet(aFacetId).normal();
 
                 for (Integer j = 0; j < 3; ++j)
@@ -1157,12 +1157,12 @@ namespace ENigMA
 
                     CGeoCoordinate<Real> p3 = m_stlFile.facet(aNeighborId).vertex(vertexNot);
 
-                    m_stlFile.facet(aNeighborId).calculateNormal();
+                    m_stlFile.facet(aNeighborId).calculateNormal(true);
                     CGeoNormal<Real> normal_j = m_stlFile.facet(aNeighborId).normal();
 
                     Real ang = normal_i.angle(normal_j);
 
-                    m_stlFile.facet(aFacetId).calculateArea();
+                    m_stlFile.facet(aFacetId).calculateArea(true);
                     Real area = m_stlFile.facet(aFacetId).area();
 
                     if (std::fabs(ang) < swapAngle || area < std::numeric_limits<Real>::min())
@@ -1174,12 +1174,12 @@ namespace ENigMA
 
                         this->getFacetQuality(m_stlFile.facet(aFacetId), sedg, bedg, dmin, dmax, qi);
 
-                        m_stlFile.facet(aNeighborId).calculateNormal();
+                        m_stlFile.facet(aNeighborId).calculateNormal(true);
                         CGeoNormal<Real> iNormal_i = m_stlFile.facet(aFacetId).normal();
 
                         this->getFacetQuality(m_stlFile.facet(aNeighborId), sedg, bedg, dmin, dmax, qj);
 
-                        m_stlFile.facet(aNeighborId).calculateNormal();
+                        m_stlFile.facet(aNeighborId).calculateNormal(true);
                         CGeoNormal<Real> iNormal_j = m_stlFile.facet(aNeighborId).normal();
 
                         Real qmini = std::min(qi, qj);
@@ -1192,63 +1192,63 @@ namespace ENigMA
                         case 0:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p3);
-                            newFacet_i.insertVertex(2, p2);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p3);
+                            newFacet_i.setVertex(2, p2);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p1);
-                            newFacet_j.insertVertex(1, p2);
-                            newFacet_j.insertVertex(2, p3);
+                            newFacet_j.setVertex(0, p1);
+                            newFacet_j.setVertex(1, p2);
+                            newFacet_j.setVertex(2, p3);
 
                             break;
 
                         case 1:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p1);
-                            newFacet_i.insertVertex(2, p3);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p1);
+                            newFacet_i.setVertex(2, p3);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p0);
-                            newFacet_j.insertVertex(1, p3);
-                            newFacet_j.insertVertex(2, p2);
+                            newFacet_j.setVertex(0, p0);
+                            newFacet_j.setVertex(1, p3);
+                            newFacet_j.setVertex(2, p2);
 
                             break;
 
                         case 2:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p1);
-                            newFacet_i.insertVertex(2, p3);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p1);
+                            newFacet_i.setVertex(2, p3);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p1);
-                            newFacet_j.insertVertex(1, p2);
-                            newFacet_j.insertVertex(2, p3);
+                            newFacet_j.setVertex(0, p1);
+                            newFacet_j.setVertex(1, p2);
+                            newFacet_j.setVertex(2, p3);
 
                             break;
                         }
 
                         this->getFacetQuality(newFacet_i, sedg, bedg, dmin, dmax, qi);
 
-                        newFacet_i.calculateNormal();
+                        newFacet_i.calculateNormal(true);
                         CGeoNormal<Real> fNormal_i = newFacet_i.normal();
 
                         this->getFacetQuality(newFacet_j, sedg, bedg, dmin, dmax, qj);
 
-                        newFacet_j.calculateNormal();
+                        newFacet_j.calculateNormal(true);
                         CGeoNormal<Real> fNormal_j = newFacet_j.normal();
 
                         Real qminf = std::min(qi, qj);
 
-                        m_stlFile.facet(aFacetId).calculateArea();
-                        m_stlFile.facet(aNeighborId).calculateArea();
+                        m_stlFile.facet(aFacetId).calculateArea(true);
+                        m_stlFile.facet(aNeighborId).calculateArea(true);
 
-                        newFacet_i.calculateArea();
-                        newFacet_j.calculateArea();
+                        newFacet_i.calculateArea(true);
+                        newFacet_j.calculateArea(true);
 
                         Real areai = m_stlFile.facet(aFacetId).area() + m_stlFile.facet(aNeighborId).area();
                         Real areaf = newFacet_i.area() + newFacet_j.area();
@@ -1494,7 +1494,7 @@ namespace ENigMA
             Integer aFacetId = m_stlFile.facetId(0);
             CStlFacet<Real>& aFacet = m_stlFile.facet(aFacetId);
 
-            aFacet.calculateNormal();
+            aFacet.calculateNormal(true);
             aFacet.calculateCentroid();
 
             CGeoCoordinate<Real> aStartPoint = aFacet.centroid();
@@ -1511,7 +1511,7 @@ namespace ENigMA
                 aFacetId = m_stlFile.facetId(i);
                 aFacet = m_stlFile.facet(aFacetId);
 
-                aFacet.calculateNormal();
+                aFacet.calculateNormal(true);
 
                 if (aFacet.intersects(aLine, aNewPoint, anIntersectionType, aTolerance))
                     nbIntersections++;
-- 
2.43.0


From a48e96dcf9c035f4fe027dbed01b2ed2a947c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 68/92] fix: CStlUtils::save writes the normals of the facets

---
 trunk/src/stl/StlUtils_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 6ca4472..b624a22 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -298,6 +298,8 @@ namespace ENigMA
                 {
                     Integer aFacetId = m_stlFile.facetId(i);
 
+                    m_stlFile.facet(aFacetId).calculateNormal(true);
+
                     fileSTL << "facet normal "
                             << m_stlFile.facet(aFacetId).normal().x() << " "
                             << m_stlFile.facet(aFacetId).normal().y() << " "
@@ -374,6 +376,8 @@ namespace ENigMA
                 {
                     Integer aFacetId = m_stlFile.facetId(i);
 
+                    m_stlFile.facet(aFacetId).calculateNormal(true);
+
                     this->writeFloat(fileSTL, m_stlFile.facet(aFacetId).normal().x());
                     this->writeFloat(fileSTL, m_stlFile.facet(aFacetId).normal().y());
                     this->writeFloat(fileSTL, m_stlFile.facet(aFacetId).normal().z());
-- 
2.43.0


From 863291c7ada0bcc696a0aaf93ed5b26baaef8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 69/92] fix: CStlUtils::setOrientation no longer overwrites the
 first facet and heeds bPointOut

---
 trunk/src/stl/StlUtils_Imp.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index b624a22..62eed0b 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1495,11 +1495,16 @@ namespace ENigMA
         template <typename Real>
         bool CStlUtils<Real>::setOrientation(bool bPointOut, const Real aTolerance)
         {
-            Integer aFacetId = m_stlFile.facetId(0);
-            CStlFacet<Real>& aFacet = m_stlFile.facet(aFacetId);
+            if (m_stlFile.nbFacets() == 0)
+                return false;
+
+            this->calculateStatistics();
+
+            Integer aPivotFacetId = m_stlFile.facetId(0);
+            CStlFacet<Real>& aFacet = m_stlFile.facet(aPivotFacetId);
 
             aFacet.calculateNormal(true);
-            aFacet.calculateCentroid();
+            aFacet.calculateCentroid(true);
 
             CGeoCoordinate<Real> aStartPoint = aFacet.centroid();
             CGeoCoordinate<Real> anEndPoint = aStartPoint + aFacet.normal() * m_stlFile.stats.size.norm();
@@ -1512,21 +1517,22 @@ namespace ENigMA
 
             for (Integer i = 1; i < m_stlFile.nbFacets(); ++i)
             {
-                aFacetId = m_stlFile.facetId(i);
-                aFacet = m_stlFile.facet(aFacetId);
+                CStlFacet<Real>& anotherFacet = m_stlFile.facet(m_stlFile.facetId(i));
 
-                aFacet.calculateNormal(true);
+                anotherFacet.calculateNormal(true);
+                anotherFacet.calculateBoundingBox(true);
 
-                if (aFacet.intersects(aLine, aNewPoint, anIntersectionType, aTolerance))
+                if (anotherFacet.intersects(aLine, aNewPoint, anIntersectionType, aTolerance))
                     nbIntersections++;
             }
 
             //std::cout << nbIntersections << std::endl;
 
-            if (nbIntersections % 2 != 0)
-                this->invertFacet(aFacetId, 0);
+            // An odd number of intersections: the facet looks into the solid
+            if ((nbIntersections % 2 != 0) == bPointOut)
+                this->invertFacet(aPivotFacetId, 0);
 
-            return this->setOrientation(aFacetId, aTolerance);
+            return this->setOrientation(aPivotFacetId, aTolerance);
         }
     }
 }
-- 
2.43.0


From 8358facea27ace33971e3f59990b63e79592964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 70/92] hook: ENIGMA_ECV declares the opposite directions of
 the lattice as integers

---
 trunk/src/solvers/LbmLidDrivenSolver.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/solvers/LbmLidDrivenSolver.hpp b/trunk/src/solvers/LbmLidDrivenSolver.hpp
index c3fc423..7a1ebff 100644
--- a/trunk/src/solvers/LbmLidDrivenSolver.hpp
+++ b/trunk/src/solvers/LbmLidDrivenSolver.hpp
@@ -30,7 +30,11 @@ namespace ENigMA
 
             std::vector<std::vector<Integer>> m_e;
             std::vector<Real> m_w;
+#ifdef ENIGMA_ECV
+            std::vector<Integer> m_op; // indices, used as such by the verifier
+#else
             std::vector<Real> m_op;
+#endif
 
             std::vector<std::vector<Integer>> m_B;
             std::vector<std::vector<Real>> m_rho;
-- 
2.43.0


From 9dfb8b2c121ba2fa1cc17d426049da78dbd8dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 71/92] fix: BEM laplacian looks elements up by id

---
 trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
index 97da2ec..e1eacf5 100644
--- a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
@@ -51,7 +51,7 @@ namespace ENigMA
 
                     for (Integer eli = 0; eli < aField.mesh().nbElements(); ++eli)
                     {
-                        CMshElement<Real>& anElementi = aField.mesh().element(eli);
+                        CMshElement<Real>& anElementi = aField.mesh().element(aField.mesh().elementId(eli));
 
                         if (anElementi.elementType() != ET_TRIANGLE)
                             continue;
@@ -66,7 +66,7 @@ namespace ENigMA
 
                         for (Integer elj = 0; elj < aField.mesh().nbElements(); ++elj)
                         {
-                            CMshElement<Real>& anElementj = aField.mesh().element(elj);
+                            CMshElement<Real>& anElementj = aField.mesh().element(aField.mesh().elementId(elj));
 
                             if (anElementj.elementType() != ET_TRIANGLE)
                                 continue;
-- 
2.43.0


From d0c3cca9588ef3c0d17794df4a0f39d52b1932cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 72/92] fix: CStlUtils::mesh walks all facets around a vertex,
 however many

---
 trunk/src/stl/StlUtils_Imp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 62eed0b..53b9561 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -689,7 +689,8 @@ namespace ENigMA
 
                     Integer aPivotVertex, aNextEdge;
 
-                    for (Integer k = 0; k < 100; k++)
+                    // Once around each way at most
+                    for (Integer k = 0; k < 2 * m_stlFile.nbFacets() + 2; k++)
                     {
                         if (aVertexNot > 2)
                         {
-- 
2.43.0


From bfb10d018b5bc643f74af7e3ce3fea7aebf79843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 73/92] fix: CAnaFunction keeps its variables when it is
 evaluated with arguments

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index f4c375f..b35111e 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -74,11 +74,13 @@ namespace ENigMA
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-            m_symbolTable.clear();
+            // The argument shadows a variable of the same name, other variables keep their definition
+            exprtk::symbol_table<Real> arguments;
+            arguments.add_variable(aVariable, aValue);
 
-            m_symbolTable.add_variable(aVariable, aValue);
             m_symbolTable.add_constants();
 
+            expression.register_symbol_table(arguments);
             expression.register_symbol_table(m_symbolTable);
             parser.compile(m_expressionString, expression);
 
@@ -91,12 +93,14 @@ namespace ENigMA
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-            m_symbolTable.clear();
+            // The arguments shadow variables of the same name, other variables keep their definition
+            exprtk::symbol_table<Real> arguments;
+            arguments.add_variable(aVariable1, aValue1);
+            arguments.add_variable(aVariable2, aValue2);
 
-            m_symbolTable.add_variable(aVariable1, aValue1);
-            m_symbolTable.add_variable(aVariable2, aValue2);
             m_symbolTable.add_constants();
 
+            expression.register_symbol_table(arguments);
             expression.register_symbol_table(m_symbolTable);
             parser.compile(m_expressionString, expression);
 
-- 
2.43.0


From ba8663444a091a50530ff990846c31e8685022c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 74/92] fix: a constant CAnaFunction has its value for every
 argument

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index b35111e..4815e2f 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -71,6 +71,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable, Real& aValue)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
@@ -90,6 +93,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable1, Real& aValue1, const std::string& aVariable2, Real& aValue2)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-- 
2.43.0


From 9d899c9a514c8083f434b58d9f2e25697d993b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 75/92] fix: signs of the transient solution in a cube

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index bfdb1f6..aaa6c44 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -190,7 +190,7 @@ namespace ENigMA
                     {
                         Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * q + 1) + (2 * r + 1) * (2 * r + 1));
 
-                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
+                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q + r) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
                     }
                 }
             }
-- 
2.43.0


From e65ef2480fbbe27c2a1dfb9e66c2e2a19412bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 76/92] fix: radiation coefficient of the fin solution

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index aaa6c44..7f6227d 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -114,7 +114,7 @@ namespace ENigMA
 
             Real G, M, x1, Tb1;
 
-            G = 2.0 / 3.0 * perimeter * e * sigma / (k * sectionArea);
+            G = 2.0 / 5.0 * perimeter * e * sigma / (k * sectionArea);
             M = h * perimeter / (k * sectionArea);
             x1 = x;
             Tb1 = Tb;
-- 
2.43.0


From 14cebf628343100e6839bfbb5cbb094d87af4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 77/92] fix: brent returns the end of the interval that is a
 root

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index 4815e2f..eae493d 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -168,7 +168,9 @@ namespace ENigMA
             // if f(a) f(b) >= 0 then error-exit
             if (fa * fb >= 0)
             {
-                if (fa < fb)
+                nIterations = 0;
+
+                if (std::fabs(fa) < std::fabs(fb))
                     return a;
                 else
                     return b;
-- 
2.43.0


From bf4d31667536a04db8cb03aba4a9fbf0c6bdfa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 78/92] fix: the fin formula names the variables it is given

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index 7f6227d..92e94aa 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -124,7 +124,7 @@ namespace ENigMA
             CAnaFunction<Real>::defineVariable("x1", x1);
             CAnaFunction<Real>::defineVariable("Tb1", Tb1);
 
-            CAnaFunction<Real>::set("1/3*M^(-1/2)*(ln(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
+            CAnaFunction<Real>::set("1/3*M^(-1/2)*(ln(((G*Tb1^3+M)^(1/2)-M^(1/2))/((G*Tb1^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x1");
 
             Integer nIter;
 
-- 
2.43.0


From 2dd335a37326e017a40c82ade88fb83ff20c9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 79/92] fix: the fin formula uses the logarithm by its name in
 exprtk

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index 92e94aa..e237a62 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -124,7 +124,7 @@ namespace ENigMA
             CAnaFunction<Real>::defineVariable("x1", x1);
             CAnaFunction<Real>::defineVariable("Tb1", Tb1);
 
-            CAnaFunction<Real>::set("1/3*M^(-1/2)*(ln(((G*Tb1^3+M)^(1/2)-M^(1/2))/((G*Tb1^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x1");
+            CAnaFunction<Real>::set("1/3*M^(-1/2)*(log(((G*Tb1^3+M)^(1/2)-M^(1/2))/((G*Tb1^3+M)^(1/2)+M^(1/2)))-log(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x1");
 
             Integer nIter;
 
-- 
2.43.0


From d1b04f0baf3f4fdc694f2cf986207ad46229ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 80/92] fix: CPosGmsh labels field values with the positions of
 their nodes or elements

---
 trunk/src/post/PosGmsh_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index efc40b2..4e8a1d9 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -275,7 +275,7 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                         {
-                            Integer index = aField.mesh().nodeIndex(i);
+                            Integer index = i;
 
                             if (aField.nbDofs() == 1)
                                 fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
@@ -309,7 +309,7 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                         {
-                            Integer index = aField.mesh().elementIndex(i);
+                            Integer index = i;
 
                             if (aField.nbDofs() == 1)
                                 fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
-- 
2.43.0


From 6af2214d2ddd33a09f50eb95871eada88b020cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 81/92] fix: CPosGnuplot looks nodes and elements up by id

---
 trunk/src/post/PosGnuplot_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/post/PosGnuplot_Imp.hpp b/trunk/src/post/PosGnuplot_Imp.hpp
index dc63a71..7922c22 100644
--- a/trunk/src/post/PosGnuplot_Imp.hpp
+++ b/trunk/src/post/PosGnuplot_Imp.hpp
@@ -41,7 +41,7 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                     {
-                        Integer id = aField.mesh().nodeIndex(i);
+                        Integer id = aField.mesh().nodeId(i);
                         CMshNode<Real> aNode = aField.mesh().node(id);
 
                         fileGnuplot << id + 1 << std::setprecision(16)
@@ -56,7 +56,7 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                     {
-                        Integer id = aField.mesh().elementIndex(i);
+                        Integer id = aField.mesh().elementId(i);
                         CGeoCoordinate<Real> aCentroid = aField.mesh().elementCentroid(id);
 
                         fileGnuplot << id + 1 << std::setprecision(16)
-- 
2.43.0


From 93d0dfc3182eec3d83feae059a4fba6b3a8e3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 82/92] fix: CPosVtk writes the nodes of quadrilaterals

---
 trunk/src/post/PosVtk_Imp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index 34afd96..e210535 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -129,6 +129,11 @@ namespace ENigMA
                         break;
                     case ET_QUADRILATERAL:
                         nElemSize = 4;
+                        fileVtk << nElemSize;
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(3));
                         break;
                     case ET_TETRAHEDRON:
                         nElemSize = 4;
-- 
2.43.0


From d56ce64f0dfca6d873345f3ad5723b296ae04bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 83/92] fix: CPosVtk writes the first coordinate in full
 precision

---
 trunk/src/post/PosVtk_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index e210535..d3fc13c 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -65,7 +65,7 @@ namespace ENigMA
                 {
                     Integer id = aField.mesh().nodeId(i);
 
-                    fileVtk << aField.mesh().node(id).x() << std::setprecision(16) << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
+                    fileVtk << std::setprecision(16) << aField.mesh().node(id).x() << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
                 }
 
                 Integer nSize = 0;
-- 
2.43.0


From 57d654dd605192cdd703ae4f33eedda7d4278347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 84/92] fix: CPosQuickMesh::load compiles

---
 trunk/src/post/PosQuickMesh_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/post/PosQuickMesh_Imp.hpp b/trunk/src/post/PosQuickMesh_Imp.hpp
index 283c28f..09bc631 100644
--- a/trunk/src/post/PosQuickMesh_Imp.hpp
+++ b/trunk/src/post/PosQuickMesh_Imp.hpp
@@ -10,6 +10,8 @@
 #pragma once
 
 #include <fstream>
+#include <iomanip>
+#include <sstream>
 
 namespace ENigMA
 {
@@ -46,8 +48,8 @@ namespace ENigMA
                         Integer id;
                         Real x, y, z;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %f %f %f", &desc[0], &id, &x, &y, &z);
+                        std::istringstream lineStream(line);
+                        lineStream >> desc >> id >> x >> y >> z;
 
                         CMshNode<Real> aNode(x, y, z);
 
@@ -58,11 +60,9 @@ namespace ENigMA
                         std::string desc;
                         Integer id;
                         Integer n1, n2, n3, n4;
-                        Integer p1, p2, p3, p4;
-                        Real v;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %d %d %d %d %d %d %d %d %f", &desc[0], &id, &n1, &n2, &n3, &n4, &p1, &p2, &p3, &p4, &v);
+                        std::istringstream lineStream(line);
+                        lineStream >> desc >> id >> n1 >> n2 >> n3 >> n4;
 
                         CMshElement<Real> anElement;
 
-- 
2.43.0


From 1737b6387e520302e0de036c1dd43213a8afdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 85/92] fix: CPosVtk does not look positions up as node ids

---
 trunk/src/post/PosVtk_Imp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index d3fc13c..9084851 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -219,8 +219,6 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                         {
-                            Integer index = aField.mesh().nodeIndex(i);
-
                             if (aField.nbDofs() == 1)
                                 fileVtk << aField.u(i) << std::endl;
                         }
-- 
2.43.0


From 656816a53824021b3e77f643bfa937256649bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 86/92] fix: the CBS solver weights gravity with the mass and
 pressure with the density

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 65b6225..235c963 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -80,11 +80,11 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = m_gx);
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = m_gx * (ddt<Real>(m_u).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_u.u.size())));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = m_gy);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = m_gy * (ddt<Real>(m_v).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_v.u.size())));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
         }
@@ -93,7 +93,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 2>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
@@ -215,15 +215,15 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gx / m_dens);
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gx * (ddt<Real>(m_u).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_u.u.size())));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gy / m_dens);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gy * (ddt<Real>(m_v).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_v.u.size())));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
 
-            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gz / m_dens);
+            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gz * (ddt<Real>(m_w).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_w.u.size())));
             aPdeEquationW.setElimination(m_w);
             aPdeEquationW.solve(m_w);
         }
@@ -232,7 +232,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 3>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
-- 
2.43.0


From 7b6e80507e744fa5a3d6dcabfc54c5d380bfb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 87/92] fix: the CBS solver starts at rest and without gravity

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 235c963..b662287 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -28,7 +28,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -36,7 +36,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -44,10 +44,12 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
+
+            m_gx = m_gy = 0;
         }
 
         template <typename Real>
@@ -153,7 +155,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -161,7 +163,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_w.setMesh(aMesh);
             m_w.setDiscretMethod(DM_FEM);
@@ -169,7 +171,7 @@ namespace ENigMA
             m_w.setDiscretLocation(DL_NODE);
             m_w.setSimulationType(ST_FLOW);
             m_w.setNbDofs(1);
-            m_w.u.resize(aMesh.nbNodes());
+            m_w.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -177,11 +179,13 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
             m_G3 = gradient<Real>(m_w, CP_Z).matrixA;
+
+            m_gx = m_gy = m_gz = 0;
         }
 
         template <typename Real>
-- 
2.43.0


From 015e66101159460ef1ac8268123c5f3c3357b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:29 +0000
Subject: [PATCH 88/92] fix: the three-dimensional CBS solver compiles

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index b662287..83369a2 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -145,7 +145,6 @@ namespace ENigMA
         // Three-dimensional
         template <typename Real>
         CFemCbsSolver<Real, 3>::CFemCbsSolver(CMshMesh<Real>& aMesh)
-            : CFemCbsSolver<Real, 2>(aMesh)
         {
             m_mesh = aMesh;
 
-- 
2.43.0


From 26e75862fa3005befdde6b5d3bbac2e44fd5452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 89/92] fix: convex hull in a plane of any orientation

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 429bc36..086adbc 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -43,9 +43,9 @@ namespace ENigMA
             vy.normalize();
 
             CGeoCoordinateSystem<Real> aCoordinateSystem;
-            aCoordinateSystem.col(0) << vx;
-            aCoordinateSystem.col(1) << vy;
-            aCoordinateSystem.col(2) << vz;
+            aCoordinateSystem.row(0) << vx.transpose();
+            aCoordinateSystem.row(1) << vy.transpose();
+            aCoordinateSystem.row(2) << vz.transpose();
 
             // Project to 2D plane
             std::vector<SVertex<Real>> sExtVertices;
-- 
2.43.0


From 4d61c29493d4a25bea808ab69cd8dd505e882892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 90/92] fix: CGeoConvexHull::set replaces the previous hull

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 086adbc..e7234d9 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -27,6 +27,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoConvexHull<Real>::set(const std::vector<CGeoCoordinate<Real>>& sVertices)
         {
+            this->reset();
+
             if (sVertices.size() < 3)
                 return;
 
-- 
2.43.0


From cb6688110beb349158746dc7b883ea0aeab3beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 91/92] fix: convex hull of vertices that start on a line

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index e7234d9..4d90bb9 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -32,8 +32,26 @@ namespace ENigMA
             if (sVertices.size() < 3)
                 return;
 
+            // The first vertices may coincide or lie on a line, take the furthest ones
             CGeoVector<Real> v0 = sVertices.at(1) - sVertices.at(0);
-            CGeoVector<Real> v1 = sVertices.at(2) - sVertices.at(0);
+
+            for (std::size_t i = 2; i < sVertices.size(); ++i)
+            {
+                CGeoVector<Real> v = sVertices.at(i) - sVertices.at(0);
+
+                if (v.dot(v) > v0.dot(v0))
+                    v0 = v;
+            }
+
+            CGeoVector<Real> v1 = v0;
+
+            for (std::size_t i = 1; i < sVertices.size(); ++i)
+            {
+                CGeoVector<Real> v = sVertices.at(i) - sVertices.at(0);
+
+                if (v0.cross(v).dot(v0.cross(v)) > v0.cross(v1).dot(v0.cross(v1)))
+                    v1 = v;
+            }
 
             CGeoVector<Real> vx = v0;
             vx.normalize();
-- 
2.43.0


From a57d1b080a79827827e5f0cd13186cec39afa802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 92/92] fix: convex hull of coinciding vertices

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 4d90bb9..b57eff1 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -97,7 +97,7 @@ namespace ENigMA
                 {
                     Real c = (sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D).cross(sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D).z();
 
-                    if (c <= 0)
+                    if (c < 0)
                         break;
 
                     k--;
@@ -113,7 +113,7 @@ namespace ENigMA
                 {
                     Real c = (sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D).cross(sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D).z();
 
-                    if (c <= 0)
+                    if (c < 0)
                         break;
 
                     k--;
-- 
2.43.0

