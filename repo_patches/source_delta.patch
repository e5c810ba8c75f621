From 13c7a6d9c61119e486926c2beb7995ab5455b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 01/81] fix: sparse matrices without a full diagonal no longer
 corrupt memory

The number of off-diagonal elements was computed as (elements - rows), which
underflows or over/under-counts as soon as a diagonal element is absent.
---
 lib/nikfemm/src/algebra/csr.cpp        | 5 ++++-
 lib/nikfemm/src/algebra/non_linear.cpp | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 74025f0..6ab8627 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -62,7 +62,10 @@ namespace nikfemm {
             return a.first < b.first;
         });
 
-        nnz = elems.size() - m;
+        // count the off-diagonal elements: not every diagonal element has to be present
+        nnz = std::count_if(elems.begin(), elems.end(), [](const auto& elem) {
+            return (elem.first >> 32) != (elem.first & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
diff --git a/lib/nikfemm/src/algebra/non_linear.cpp b/lib/nikfemm/src/algebra/non_linear.cpp
index f9a2e96..6ae375b 100644
--- a/lib/nikfemm/src/algebra/non_linear.cpp
+++ b/lib/nikfemm/src/algebra/non_linear.cpp
@@ -23,7 +23,10 @@ namespace nikfemm {
         // sort elems by key
         std::sort(keys.begin(), keys.end());
 
-        nnz = coo.elems.size() - m;
+        // count the off-diagonal elements: not every diagonal element has to be present
+        nnz = std::count_if(keys.begin(), keys.end(), [](const auto& key) {
+            return (key >> 32) != (key & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
@@ -58,7 +61,7 @@ namespace nikfemm {
         // diagonal
         for (uint32_t i = 0; i < m; i++) {
             double old_val = diag[i];
-            diag[i] = diag_expr[i]->evaluate(mu);
+            diag[i] = diag_expr[i] != nullptr ? diag_expr[i]->evaluate(mu) : 0;
         }
         // off-diagonal
         for (uint32_t i = 0; i < nnz; i++) {
-- 
2.43.0


From 39bc2b6ba17598640ffc68af4b76cf4d905e4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 02/81] fix: conjugate gradient no longer stalls on systems
 with small entries

p'Ap was replaced by machine epsilon whenever it was below it, which is an
absolute threshold: a system scaled by 1e-10 took steps of a wrong length and
never converged. Only an exactly vanishing p'Ap has no step to take.
---
 lib/nikfemm/src/algebra/solvers.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..b1ea00f 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -93,9 +93,10 @@ namespace nikfemm {
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double pAp = dot(p, Ap);
-            if (fabs(pAp) < std::numeric_limits<double>::epsilon()) {
-                pAp = std::numeric_limits<double>::epsilon();
-                nlogwarn("warning: pAp is zero. approximating with epsilon");
+            if (pAp == 0) {
+                // the search direction vanished: there is nothing left to improve
+                nlogwarn("warning: pAp is zero, stopping");
+                break;
             }
             double alpha = rTr / pAp;
             addScaled(x, x, alpha, p);
-- 
2.43.0


From 7c7b9fd8747d07aeacd5d677e6fbfa56afaf43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 03/81] fix: Jacobi-preconditioned solver no longer returns NaN
 when started at the solution

With a zero residual the step length is 0/0. Return before the first step, as
the SSOR and incomplete Cholesky variants already do.
---
 lib/nikfemm/src/algebra/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index b1ea00f..f1385c1 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -132,6 +132,10 @@ namespace nikfemm {
         std::vector<double> Ap(b.size());
         double rTzold;
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double alpha = dot(r, z) / dot(p, Ap);
-- 
2.43.0


From 6052f2f7d9e34173541218ced63dcc17fb94b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 04/81] fix: adding a nonlinear expression to itself no longer
 reads freed memory

---
 lib/nikfemm/src/algebra/non_linear.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/algebra/non_linear.hpp b/lib/nikfemm/src/algebra/non_linear.hpp
index dfaa115..ed8e6af 100644
--- a/lib/nikfemm/src/algebra/non_linear.hpp
+++ b/lib/nikfemm/src/algebra/non_linear.hpp
@@ -45,7 +45,10 @@ namespace nikfemm {
 
         NonLinearExpression& operator+=(const NonLinearExpression& other) {
             constant += other.constant;
-            for (auto const& term : other.terms) {
+            // other may be this expression itself: only visit the terms that were there before
+            const size_t n = other.terms.size();
+            for (size_t i = 0; i < n; i++) {
+                NonLinearTerm term = other.terms[i];
                 terms.push_back(term);
             }
             return *this;
@@ -63,7 +66,10 @@ namespace nikfemm {
 
         NonLinearExpression& operator-=(const NonLinearExpression& other) {
             constant -= other.constant;
-            for (auto const& term : other.terms) {
+            // other may be this expression itself: only visit the terms that were there before
+            const size_t n = other.terms.size();
+            for (size_t i = 0; i < n; i++) {
+                NonLinearTerm term = other.terms[i];
                 terms.push_back(NonLinearTerm{-term.linear_coefficient, term.nonlinear_coefficient_element_index});
             }
             return *this;
-- 
2.43.0


From 1c7c7592f8b35d28111d3d3391fc907b326e2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 05/81] fix: the segment-pair overload of segmentsIntersect can
 be linked

---
 lib/nikfemm/src/geometry/segment.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.hpp b/lib/nikfemm/src/geometry/segment.hpp
index 0b8e9e8..bd522a7 100644
--- a/lib/nikfemm/src/geometry/segment.hpp
+++ b/lib/nikfemm/src/geometry/segment.hpp
@@ -11,7 +11,7 @@ namespace nikfemm {
 
         Segment(Vector p1, Vector p2);
         double length();
-        static inline bool segmentsIntersect(Segment s1, Segment s2);
+        static bool segmentsIntersect(Segment s1, Segment s2);
         static bool segmentsIntersect(Vector s1p1, Vector s1p2, Vector s2p1, Vector s2p2);
         static bool pointInSegmentBB(Vector p, Segment s);
         static bool pointInSegmentBB(Vector p, Vector p1, Vector p2);
-- 
2.43.0


From 4c3c53daaf0de711f4131e6941a2c52f8095e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 06/81] fix: segmentsIntersect no longer depends on orientation
 when segments touch

---
 lib/nikfemm/src/geometry/segment.cpp | 47 ++++++----------------------
 1 file changed, 10 insertions(+), 37 deletions(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..f15114e 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -101,48 +101,21 @@ namespace nikfemm {
     }
 
     bool Segment::segmentsIntersect(Vector s1p1, Vector s1p2, Vector s2p1, Vector s2p2) {
-        double epsilon = 1e-100;
+        // both segments include their end points: touching counts as intersecting
         double c_area = area(s1p1, s1p2, s2p1);
         double d_area = area(s1p1, s1p2, s2p2);
-        if (std::abs(c_area) < epsilon) {
-            if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p1.y && s2p1.y < std::max(s1p1.y,s1p2.y)+epsilon) {
-                    return true;
-                }
-            } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p1.x && s2p1.x < std::max(s1p1.x,s1p2.x)+epsilon) {
-                    return true;
-                }
-            }
-            if (std::abs(d_area) > epsilon) {
-                return false;
-            }
-        }
-        if (std::abs(d_area) < epsilon) {
-            if (std::abs(s2p2.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p2.y && s2p2.y < std::max(s1p1.y,s1p2.y)+epsilon) {
-                    return true;
-                }
-            } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p2.x && s2p2.x < std::max(s1p1.x,s1p2.x)+epsilon) {
-                    return true;
-                }
-            }
-            if (std::abs(c_area) > epsilon) {
-                return false;
-            }
-            if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                return (s1p1.y < s2p1.y) != (s1p1.y < s2p2.y);
-            } else {
-                return (s1p1.x < s2p1.x) != (s1p1.x < s2p2.x);
-            }
+        double a_area = area(s2p1, s2p2, s1p1);
+        double b_area = area(s2p1, s2p2, s1p2);
+        if (c_area == 0 && d_area == 0 && a_area == 0 && b_area == 0) {
+            // collinear: they intersect if they overlap along the common line
+            return std::max(std::min(s1p1.x, s1p2.x), std::min(s2p1.x, s2p2.x)) <= std::min(std::max(s1p1.x, s1p2.x), std::max(s2p1.x, s2p2.x)) &&
+                   std::max(std::min(s1p1.y, s1p2.y), std::min(s2p1.y, s2p2.y)) <= std::min(std::max(s1p1.y, s1p2.y), std::max(s2p1.y, s2p2.y));
         }
-        if ((c_area > 0) == (d_area > 0)) {
+        // the end points of each segment must not be strictly on the same side of the other
+        if ((c_area > 0 && d_area > 0) || (c_area < 0 && d_area < 0)) {
             return false;
         }
-        double a_area = area(s2p1, s2p2, s1p1);
-        double b_area = area(s2p1, s2p2, s1p2);
-        return (a_area > 0) != (b_area > 0);
+        return !((a_area > 0 && b_area > 0) || (a_area < 0 && b_area < 0));
     }
 
     bool Segment::operator==(const Segment& s) const {
-- 
2.43.0


From 36dc19f165b92ef451c91191a9817d4b42fe3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 07/81] fix: the distance to a zero-length segment is no longer
 NaN

---
 lib/nikfemm/src/geometry/segment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index f15114e..fcae98d 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,7 +84,11 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
-        double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
+        double length_squared = Vector::distanceSquared(p1, p2);
+        if (length_squared == 0) {
+            return Vector::distance(p, p1);
+        }
+        double param = ((p - p1) * (p2 - p1)) / length_squared;
         if (param < 0) {
             return Vector::distance(p, p1);
         }
-- 
2.43.0


From 96ee7363aa93fd33bd49fb9f8468c1d7b778fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 08/81] fix: orientation test no longer treats every small
 triangle as collinear

---
 lib/nikfemm/src/geometry/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/common.hpp b/lib/nikfemm/src/geometry/common.hpp
index 1169829..7fe5b5a 100644
--- a/lib/nikfemm/src/geometry/common.hpp
+++ b/lib/nikfemm/src/geometry/common.hpp
@@ -14,7 +14,7 @@ namespace nikfemm {
         double val = (p2.y - p1.y) * (p3.x - p2.x) -
                      (p2.x - p1.x) * (p3.y - p2.y);
 
-        if (abs(val) < std::numeric_limits<double>::epsilon()) {
+        if (val == 0) {
             return Orientation::COLLINEAR;
         } else if (val > 0) {
             return Orientation::CLOCKWISE;
-- 
2.43.0


From 9b49279ba376d1f73880b0e22193061a5952a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 09/81] fix: the enclosing circle encloses its points wherever
 they are

---
 lib/nikfemm/src/geometry/circle.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..2a1d830 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -87,16 +87,19 @@ namespace nikfemm {
     }
 
     Circle Circle::getEnclosingCircle(std::vector<Vector> points) {
-        double maxmod = 0;
+        if (points.size() == 0) {
+            return Circle();
+        }
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
-            if (mod > maxmod) {
-                maxmod = mod;
-            }
             center += p;
         }
         center /= points.size();
-        return Circle(center, maxmod);
+        // the radius is measured from the center, not from the origin
+        double maxdist = 0;
+        for (auto p : points) {
+            maxdist = std::max(maxdist, Vector::distance(p, center));
+        }
+        return Circle(center, maxdist);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 387b85dedef8bcb00786100ac174c732a4fedb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 10/81] fix: the minimum enclosing circle encloses all points,
 also duplicated and aligned ones

---
 lib/nikfemm/src/geometry/circle.cpp | 44 +++++++++++++++--------------
 lib/nikfemm/src/geometry/circle.hpp |  3 --
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index 2a1d830..1831cce 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -28,6 +28,11 @@ namespace nikfemm {
         return !(*this == c);
     }
     
+    // a point that defines a circle can lie outside of it by a rounding error
+    static bool containsWithTolerance(const Circle& c, Vector p) {
+        return Vector::distance(c.center, p) <= c.radius * (1 + 1e-10);
+    }
+
     Circle Circle::trivialCircleFromPoints(std::vector<Vector> points) {
         assert(points.size() <= 3);
         if (points.size() == 0) {
@@ -43,7 +48,7 @@ namespace nikfemm {
             for (int j = i + 1; j < 3; j++) {
     
                 Circle c = getCircleFromPoints(points[i], points[j]);
-                if (c.containsPoints(points)) {
+                if (std::all_of(points.begin(), points.end(), [&c](Vector p) { return containsWithTolerance(c, p); })) {
                     return c;
                 }
             }
@@ -52,29 +57,26 @@ namespace nikfemm {
         return getCircleFromPoints(points[0], points[1], points[2]);
     }
 
-    Circle Circle::welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n) {
-        if (n == 0 || R.size() == 3) {
-            return trivialCircleFromPoints(R);
-        }
-
-        uint32_t k = rand() % n;
-        Vector p = points[k];
-
-        std::swap(points[k], points[n - 1]);
-        Circle c = welzlHelper(points, R, n - 1);
-
-        if (c.contains(p)) {
-            return c;
-        }
-
-        R.push_back(p);
-        return welzlHelper(points, R, n - 1);
-    }
-
     Circle Circle::getMinimumEnclosingCircle(std::vector<Vector> points) {
+        // incremental version of Welzl's algorithm
         auto rng = std::default_random_engine {};
         std::shuffle(points.begin(), points.end(), rng);
-        return welzlHelper(points, std::vector<Vector>(), points.size());
+        Circle c = Circle();
+        for (size_t i = 0; i < points.size(); i++) {
+            if (i > 0 && containsWithTolerance(c, points[i])) continue;
+            // points[i] is on the circle around the points before it
+            c = Circle(points[i], 0);
+            for (size_t j = 0; j < i; j++) {
+                if (containsWithTolerance(c, points[j])) continue;
+                // so is points[j]
+                c = getCircleFromPoints(points[i], points[j]);
+                for (size_t k = 0; k < j; k++) {
+                    if (containsWithTolerance(c, points[k])) continue;
+                    c = getCircleFromPoints(points[i], points[j], points[k]);
+                }
+            }
+        }
+        return c;
     }
 
     Circle Circle::getMinimumEnclosingCircle(std::unordered_set<Vector> points) {
diff --git a/lib/nikfemm/src/geometry/circle.hpp b/lib/nikfemm/src/geometry/circle.hpp
index 509d008..a1742ea 100644
--- a/lib/nikfemm/src/geometry/circle.hpp
+++ b/lib/nikfemm/src/geometry/circle.hpp
@@ -61,9 +61,6 @@ namespace nikfemm {
 
             static Circle trivialCircleFromPoints(std::vector<Vector> points);
 
-        protected:
-            static Circle welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n);
-        public:
             static Circle getMinimumEnclosingCircle(std::vector<Vector> points);
             static Circle getMinimumEnclosingCircle(std::unordered_set<Vector> points);
             static Circle getEnclosingCircle(std::vector<Vector> points);
-- 
2.43.0


From 6e6ab7191d00ae47e7af8498a300f7f961c0d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 11/81] fix: a segment that crosses another one is rejected
 whatever the order they are drawn in

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..37106f8 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -236,7 +236,10 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            Vector q1 = points[s.p1];
+            Vector q2 = points[s.p2];
+            if (std::max(p1.x, p2.x) < std::min(q1.x, q2.x) || std::max(q1.x, q2.x) < std::min(p1.x, p2.x) ||
+                std::max(p1.y, p2.y) < std::min(q1.y, q2.y) || std::max(q1.y, q2.y) < std::min(p1.y, p2.y)) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From e18c5be26e6d2ad1052032420a8505431178d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 12/81] fix: drawing the same point twice no longer duplicates
 it

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 37106f8..469ba2e 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -258,6 +258,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        // a point that is already there must not be added twice
+        for (uint32_t i = 0; i < points.size(); i++) {
+            if (points[i] == p) {
+                return;
+            }
+        }
         points.push_back(p);
     }
 
-- 
2.43.0


From 60313587c9b2f20b3c47f323161a8c3c54e8b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 13/81] fix: a segment of no length no longer duplicates its
 point

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 469ba2e..22af7e3 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -202,6 +202,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawSegment(Vector p1, Vector p2) {
+        // a segment of no length only contributes its point
+        if (p1 == p2) {
+            drawPoint(p1);
+            return;
+        }
+
         // check if point is already in points
         bool p1_found = false;
         bool p2_found = false;
-- 
2.43.0


From d49babdb1ebac2d9ad7a7f2fc4a4ebf0088984f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 14/81] fix: circles close exactly on their first point

---
 lib/nikfemm/src/drawing/drawing.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 22af7e3..9eb1979 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -125,14 +125,15 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawCircle(Vector p, double radius, uint32_t n_segments) {
-        double angle = 0;
         double angle_step = 2 * PI / n_segments;
-        Vector p1 = Vector(p.x + radius, p.y);
+        Vector start = Vector(p.x + radius, p.y);
+        Vector p1 = start;
         Vector p2;
         std::vector<Vector> my_points;
         for (uint32_t i = 0; i < n_segments; i++) {
-            angle += angle_step;
-            p2 = Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
+            double angle = (i + 1) * angle_step;
+            // the last point is the first one: a rounding error must not leave the circle open
+            p2 = i + 1 == n_segments ? start : Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
             drawSegment(p1, p2);
             p1 = p2;
             my_points.push_back(p2);
-- 
2.43.0


From 2d62a5d35c241ed076d9fabca48d1561697ff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 15/81] fix: getPolygonProp finds the property of a polygon
 that contains other polygons

---
 lib/nikfemm/src/drawing/drawing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 9eb1979..090158b 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -413,7 +413,7 @@ namespace nikfemm {
             // if there are multiple regions, this means that there are polygons inside this polygon
             std::vector<Polygon> polygons_contained_by_polygon;
             for (Polygon polygon : polygons) {
-                if (p.contains(polygon)) {
+                if (polygon != p && p.contains(polygon)) {
                     polygons_contained_by_polygon.push_back(polygon);
                 }
             }
-- 
2.43.0


From c21f39fc6ff7dfbccac6cd9392f4e7eedc550a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 16/81] fix: the mesher's exact arithmetic no longer reads past
 the end of its arrays

---
 lib/nikfemm/src/triangle/triangle.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 74074e0..e5660a8 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -4995,19 +4995,19 @@ REAL *h;
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      if (++eindex < elen) enow = e[eindex];
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      if (++findex < flen) fnow = f[findex];
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -5016,10 +5016,10 @@ REAL *h;
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        if (++eindex < elen) enow = e[eindex];
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        if (++findex < flen) fnow = f[findex];
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -5029,7 +5029,7 @@ REAL *h;
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -5037,7 +5037,7 @@ REAL *h;
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From 91dd5f77308ce9598dd2ce1ea5f4839f0bbabdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 17/81] fix: area bounds of any magnitude reach the mesher

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..b6b3e3d 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -216,8 +216,9 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        // the mesher does not read exponents: leave room for the digits of very large and very small areas
+        char switches[1024];
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.340f", min_angle, max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From e3ca95ad9f4d60ff08755660f3197638b80fa125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 18/81] fix: vertices shared by more than 18 triangles no
 longer overflow the adjacency tables

---
 lib/nikfemm/src/current_density/mesh.cpp     | 38 +++++++++++---------
 lib/nikfemm/src/magnetostatic/mesh.cpp       | 13 +++----
 lib/nikfemm/src/magnetostatic/simulation.cpp | 11 +++---
 lib/nikfemm/src/magnetostatic/simulation.hpp |  4 +--
 4 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..b827c14 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,15 +11,16 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
@@ -29,7 +30,7 @@ namespace nikfemm {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +97,29 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjverts_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_count[myid]++;
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
+                adjverts_count[myid]++;
             }
         }
 
@@ -125,7 +129,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +137,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_count[i]; k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..6e0d227 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,22 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..445eddc 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -223,14 +223,15 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(mesh.data.numberofpoints, 0);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
+                adjelems_count[myid]++;
             }
         }
 
@@ -352,7 +353,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -514,7 +515,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..c54b626 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,8 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
+        std::vector<uint32_t> adjelems_count;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From 86ef192056cc2e366f0f7e689fbf082cec3ad645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 19/81] fix: poor conductors are solved as accurately as good
 ones

---
 lib/nikfemm/src/current_density/simulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/current_density/simulation.cpp b/lib/nikfemm/src/current_density/simulation.cpp
index 90a2068..e5ebbe3 100644
--- a/lib/nikfemm/src/current_density/simulation.cpp
+++ b/lib/nikfemm/src/current_density/simulation.cpp
@@ -74,7 +74,12 @@ namespace nikfemm {
         MatCSRSymmetric FemMat(system.A);
 
         auto start = std::chrono::high_resolution_clock::now();
-        preconditionedSSORConjugateGradientSolver(FemMat, system.b, V, 1.5, 1e-12, 100000);
+        // the residual is a current: what counts as small depends on the conductances
+        double scale = 1;
+        for (uint32_t i = 0; i < system.b.size(); i++) {
+            if (FemMat(i, i) > 0) scale = std::min(scale, FemMat(i, i));
+        }
+        preconditionedSSORConjugateGradientSolver(FemMat, system.b, V, 1.5, 1e-12 * scale, 100000);
         // preconditionedJacobiConjugateGradientSolver(FemMat, system.b, V, 1e-6, 100000);
         auto end = std::chrono::high_resolution_clock::now();
         nloginfo("solver took %f ms", std::chrono::duration_cast<std::chrono::microseconds>(end - start).count() / 1000.0);
-- 
2.43.0


From 8040472408f8f64497612539a6b8dff87a44911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 20/81] fix: interconnections carry the current of their own
 resistance, also in parallel

Each interconnection was stamped as 2/R, a second one between the same nodes
replaced the first one's coupling, and one between a node and itself changed
the diagonal.
---
 .../src/current_density/multilayer_simulation.cpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..6e7b06e 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,18 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // both terminals on the same node: no current can flow through R
+            if (m1 == m2) continue;
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
-            // 2.
+            // 2. (+= because several interconnections can join the same nodes)
             if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+                merged_system.A(m2, m1) += -1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) += -1/R;
             }
         }
 
-- 
2.43.0


From 4ee586beae31ed15218453aea6f221fa3b52b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 21/81] fix: layered poor conductors are solved as accurately
 as good ones

---
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 6e7b06e..60b26f6 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -280,7 +280,12 @@ namespace nikfemm {
         MatCSRSymmetric FemMat(system.A);
 
         auto start = std::chrono::high_resolution_clock::now();
-        preconditionedSSORConjugateGradientSolver(FemMat, system.b, V, 1.5, 1e-7, 100000);
+        // the residual is a current: what counts as small depends on the conductances
+        double scale = 1;
+        for (uint32_t i = 0; i < system.b.size(); i++) {
+            if (FemMat(i, i) > 0) scale = std::min(scale, FemMat(i, i));
+        }
+        preconditionedSSORConjugateGradientSolver(FemMat, system.b, V, 1.5, 1e-12 * scale, 100000);
         // preconditionedJacobiConjugateGradientSolver(FemMat, system.b, V, 1e-6, 100000);
         auto end = std::chrono::high_resolution_clock::now();
         nloginfo("solver took %f ms", std::chrono::duration_cast<std::chrono::microseconds>(end - start).count() / 1000.0);
-- 
2.43.0


From 12a06f3657881b889b0ea82ccabdc37cae1750c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 22/81] fix: the curl of a vector potential no longer points
 backwards

With A along z, curl A = (dA/dy, -dA/dx); the flux density was its opposite.
---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b6b3e3d..69f600a 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -406,7 +406,7 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From 6cf20c62abe3dac3f3ad381f03891f82918af82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 23/81] fix: large area bounds no longer make the boundary
 circle cut the drawing

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 445eddc..faaf38f 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -59,6 +59,8 @@ namespace nikfemm {
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
         uint32_t boundary_points = (uint32_t)((circumferential_length / sqrt((max_triangle_area * 4) / sqrt(3))) * 2);
+        // the boundary must stay clear of the drawing, however large the triangles may be
+        boundary_points = std::max(boundary_points, (uint32_t)16);
         nloginfo("boundary points: %d", boundary_points);
         mesh.drawing.drawCircle(boundary_circle, boundary_points);
         // add region near the edge of the circle
-- 
2.43.0


From 5a5a4392607eea30c6358997fff706780de6cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 24/81] fix: an exterior vertex at the center is not mapped to
 NaN

---
 lib/nikfemm/src/mesh/mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 69f600a..c25192e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -268,7 +268,8 @@ namespace nikfemm {
                 if (dist < max_x) {
                 // if (false) {
                     nloginfo("kelvin transform too large");
-                    data.pointlist[i] = v * ((radius * max_radius_coeff) / dist);
+                    // the center itself has no direction: any one will do
+                    data.pointlist[i] = dist == 0 ? Vector(radius * max_radius_coeff, 0) : v * ((radius * max_radius_coeff) / dist);
                 } else {
                     data.pointlist[i] = v * scale;
                 }
-- 
2.43.0


From 90758c41ca7b40d8eb3a91597882dbbdb2508e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 25/81] fix: the exterior mesh matches the boundary of the
 inner mesh vertex by vertex

When either mesher split the boundary circle, as it does for area bounds far
from 1, vertices had no partner and triangles got uninitialised vertex ids.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp |  2 +-
 lib/nikfemm/src/mesh/mesh.hpp                | 30 ++++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index faaf38f..32512d0 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -77,7 +77,7 @@ namespace nikfemm {
 
         mesh.mesh(max_triangle_area, min_angle);
         // mesh.plot();
-        mesh.addKelvinBoundaryConditions(boundary_points);
+        mesh.addKelvinBoundaryConditions(max_triangle_area);
         mesh.computeEpsilon();
         // mesh.plot();
         nloginfo("the mesh has %u nodes and %u elements", mesh.data.numberofpoints, mesh.data.numberoftriangles);
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index c25192e..9567ed8 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -105,8 +105,8 @@ namespace nikfemm {
 
         ~Mesh();
 
-        void mesh(double max_triangle_area = 1.0, int min_angle = 33);
-        void addKelvinBoundaryConditions(uint32_t boundary_points);
+        void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool split_boundary = true);
+        void addKelvinBoundaryConditions(double max_triangle_area = 1.0);
         void kelvinTransformCentered();
         void computeEpsilon();
         std::vector<Vector> computeCurl(std::vector<double>& in) const;
@@ -170,7 +170,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle) {
+    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool split_boundary) {
         triangulateio in;
 
         /* set up the input */
@@ -218,7 +218,7 @@ namespace nikfemm {
         // printf("----------------------\n");
         // the mesher does not read exponents: leave room for the digits of very large and very small areas
         char switches[1024];
-        snprintf(switches, sizeof(switches), "pzq%dAQa%.340f", min_angle, max_triangle_area);
+        snprintf(switches, sizeof(switches), "pzq%dAQ%sa%.340f", min_angle, split_boundary ? "" : "Y", max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
@@ -278,7 +278,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::addKelvinBoundaryConditions(uint32_t boundary_points) {
+    void Mesh<Prop>::addKelvinBoundaryConditions(double max_triangle_area) {
         // kelvin mesh = km
         // this mesh = tm
         // kelvin mesh boundary vertices = kmb
@@ -288,12 +288,26 @@ namespace nikfemm {
 
         Mesh<Prop> kelvin_mesh;
 
-        Circle boundary_circle = Circle(Vector(0, 0), radius);
-        kelvin_mesh.drawing.drawCircle(boundary_circle, boundary_points);
+        // the mesher may have split the boundary: start from the boundary of the mesh, not from the drawn circle
+        std::map<uint32_t, uint32_t> this_to_kelvin_drawing;
+        for (uint32_t i = 0; i < data.numberofsegments; i++) {
+            if (data.segmentmarkerlist[i] == 0) continue;
+            uint32_t ids[2];
+            for (uint8_t j = 0; j < 2; j++) {
+                uint32_t v = data.segmentlist[2 * i + j];
+                if (this_to_kelvin_drawing.count(v) == 0) {
+                    this_to_kelvin_drawing[v] = kelvin_mesh.drawing.points.size();
+                    kelvin_mesh.drawing.points.push_back(data.pointlist[v]);
+                }
+                ids[j] = this_to_kelvin_drawing[v];
+            }
+            kelvin_mesh.drawing.segments.push_back(DrawingSegment(ids[0], ids[1]));
+        }
         // add region near the edge of the circle
         kelvin_mesh.drawing.drawRegion(Vector(0, 0), default_prop);
 
-        kelvin_mesh.mesh();
+        // the boundary of the kelvin mesh has to match: do not split it
+        kelvin_mesh.mesh(std::max(1.0, max_triangle_area), 33, false);
         kelvin_mesh.center = Vector(0, 0);
         kelvin_mesh.radius = radius;
 
-- 
2.43.0


From 2decefdb993682d1f85fd31fdfdb971ed2b811fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 26/81] fix: magnets have the surface currents of their
 magnetization

The surface currents were counted twice (the whole edge on each of its two
nodes), once per corner for a magnet in no other polygon, twice for a magnet
marked twice, and not at all on the inner boundaries of a magnet around
something else or between a magnet and another one inside it.
---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 126 +------------------------
 1 file changed, 3 insertions(+), 123 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 6e0d227..3529cee 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -65,130 +65,10 @@ namespace nikfemm {
 
                 // set the b vector
                 system.b[i] += (double_area * adjelems_props[i][j]->J) / 6;
-            }
-        }
-
-        // line integral
-        // in this section we find all the edges where there is a surface current (i.e. the edges where the M vector changes from element to element)
-        // to do this first of all we find all the segments in the drawing that are subject to a surface current and their outward normal
-        struct SurfaceCurrentSegment {
-            Vector p1, p2; // the two points that define the segment
-            double Jm; // surface current density on the segment (M x n) (pointing normal to the simulation plane)
-        };
-
-        // first we have to find the polygons that are magnets
-        // if the polygon contains a region that is a magnet and it does not contain any other polygon that contains the same region then it is a magnet
-        std::map<uint32_t, std::vector<Polygon>> polygons_that_contain_magnet_region;
-        for (auto region :drawing.regions) {
-            if (drawing.region_map[region.second].M != Vector(0, 0)) {
-                for (auto polygon : drawing.polygons) {
-                    if (polygon.contains(region.first)) {
-                        polygons_that_contain_magnet_region[region.second].push_back(polygon);
-                    }
-                }
-            }
-        }
-
-        struct Magnet {
-            Polygon polygon;
-            Vector M;
-            std::vector<SurfaceCurrentSegment> segments;
-        };
-
-        std::vector<Magnet> magnets;
-        for (auto region_poly_array : polygons_that_contain_magnet_region) {
-            if (region_poly_array.second.size() == 1) {
-                // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
-                }
-            } else {
-                // this array contains a magnet and other polygons that contain the polygon that is a magnet
-                // we need to find the polygon that does not contain any other polygon that contains the same region
-                for (auto polygon : region_poly_array.second) {
-                    bool is_magnet = true;
-                    for (auto other_polygon : region_poly_array.second) {
-                        if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                            is_magnet = false;
-                            break;
-                        }
-                    }
-                    if (is_magnet) {
-                        magnets.push_back({polygon, drawing.region_map[region_poly_array.first].M, {}});
-                    }
-                }
-            }
-        }
-
-        // now we have to find the segments that are subject to a surface current and their outward normal
-        for (auto &magnet : magnets) {
-            for (uint32_t i = 0; i < magnet.polygon.points.size(); i++) {
-                uint32_t j = (i + 1) % magnet.polygon.points.size();
-                Vector p1 = magnet.polygon.points[i];
-                Vector p2 = magnet.polygon.points[j];
-                Vector n = (p2 - p1).normal().normalize();
-                // we need the outward normal
-                Vector test = Vector::midPoint(p1, p2) + (n * epsilon * 0.1);  // 0.1 just to make sure that we get no false negatives
-                if (magnet.polygon.contains(test)) {
-                    n = n * -1;
-                }
-                // draw arrow from the middle of p1 and p2 in the direction of n
-                Vector mid = Vector::midPoint(p1, p2);
-                double Jm = magnet.M ^ n;
-                magnet.segments.push_back({p1, p2, Jm});
-            }
-        }
-
-        // now we have to find the edges that are subject to a surface current
-        // i.e. the edges that lie on a segment that is subject to a surface current
-        // edges should be unique
 
-        // we need an unique list of edges
-        struct Edge {
-            uint32_t v1, v2;
-        };
-
-        struct EdgeHash {
-            static uint64_t edge_unique_hash(uint32_t v1, uint32_t v2) {
-                return (uint64_t)v1 << 32 | (uint64_t)v2;
-            }
-            std::size_t operator()(const Edge& edge) const {
-                return edge_unique_hash(edge.v1, edge.v2) * (edge.v1 > edge.v2) + edge_unique_hash(edge.v2, edge.v1) * (edge.v1 <= edge.v2);
-            }
-        };
-
-        struct EdgeEqual {
-            bool operator()(const Edge& edge1, const Edge& edge2) const {
-                return (edge1.v1 == edge2.v1 && edge1.v2 == edge2.v2) || (edge1.v1 == edge2.v2 && edge1.v2 == edge2.v1);
-            }
-        };
-
-        std::unordered_set<Edge, EdgeHash, EdgeEqual> edges;
-        edges.reserve((data.numberofpoints - 2) * 3);
-
-        for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-            edges.insert({(uint32_t)data.trianglelist[i][0], (uint32_t)data.trianglelist[i][1]});
-            edges.insert({(uint32_t)data.trianglelist[i][1], (uint32_t)data.trianglelist[i][2]});
-            edges.insert({(uint32_t)data.trianglelist[i][2], (uint32_t)data.trianglelist[i][0]});
-        }
-
-        nloginfo("number of edges: %d, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
-        
-
-        for (auto edge : edges) {
-            Vector p1 = data.pointlist[edge.v1];
-            Vector p2 = data.pointlist[edge.v2];
-            for (auto magnet : magnets) {
-                for (auto segment : magnet.segments) {
-                    double dist1 = Segment::pointSegmentDistance(p1, segment.p1, segment.p2);
-                    double dist2 = Segment::pointSegmentDistance(p2, segment.p1, segment.p2);
-                    if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
-                        // this edge is subject to a surface current
-                        double length = Vector::distance(p1, p2);
-                        system.b[edge.v1] += length * segment.Jm;
-                        system.b[edge.v2] += length * segment.Jm;
-                    }
-                }
+                // equivalent currents of the magnetization: wherever M changes from element to element a surface
+                // current M x n flows, which is the same as the integral of M x grad(v1) over the elements
+                system.b[i] += (adjelems_props[i][j]->M ^ Vector(b1, c1)) * double_area * 0.5;
             }
         }
 
-- 
2.43.0


From 6b47cd70cbac36cb5352005e2350993a932a56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 27/81] fix: the field of weak sources is solved as accurately
 as that of strong ones

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 32512d0..ac9bc03 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -123,7 +123,10 @@ namespace nikfemm {
         auto tstart = std::chrono::high_resolution_clock::now();
         if (all_linear) {
             nloginfo("all magnetostatic_materials are linear");
-            preconditionedSSORConjugateGradientSolver(FemMat, b, A, 1.5, 1e-6, 100000);
+            // what counts as a small residual depends on the sources
+            double norm_b = norm(b);
+            double tolerance = norm_b > 0 ? std::min(1e-6, 1e-10 * norm_b) : 1e-6;
+            preconditionedSSORConjugateGradientSolver(FemMat, b, A, 1.5, tolerance, 100000);
             // preconditionedIncompleteCholeskyConjugateGradientSolver(FemMat, b, A, 1e-6, 100000);
         } else {
             nloginfo("nonlinear magnetostatic_materials detected, starting non linear newton solver");
-- 
2.43.0


From a47b4a1b66bdeb368d15e275c9838f46f47e2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 28/81] fix: the permeability comes from the segment of the BH
 curve that contains B

The following segment was used, and past the last one the end of the curve was
read.
---
 lib/nikfemm/src/magnetostatic/properties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..df43d0c 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,11 +43,11 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
-            double B1 = it->B;
-            double H1 = it->H;
-            double B2 = (++it)->B;
+            // it is the first point not below B: the segment that contains B ends there
+            double B2 = it->B;
             double H2 = it->H;
+            double B1 = (--it)->B;
+            double H1 = it->H;
 
             // mu = dB/dH
             double m = (B2 - B1) / (H2 - H1);
-- 
2.43.0


From 4e6e83fa0a9db7c571c0051fa5a8ee8813264516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 29/81] fix: the nonlinear iteration stops only at a field that
 implies its own permeabilities

It stopped as soon as the linear solver was done with the damped permeabilities
of the step, which start out arbitrarily large, and at an absolute residual that
weak sources are below from the start.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 29 ++++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ac9bc03..a6fc433 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -120,11 +120,12 @@ namespace nikfemm {
             }
         }
 
+        // what counts as a small residual depends on the sources
+        double norm_b = norm(b);
+
         auto tstart = std::chrono::high_resolution_clock::now();
         if (all_linear) {
             nloginfo("all magnetostatic_materials are linear");
-            // what counts as a small residual depends on the sources
-            double norm_b = norm(b);
             double tolerance = norm_b > 0 ? std::min(1e-6, 1e-10 * norm_b) : 1e-6;
             preconditionedSSORConjugateGradientSolver(FemMat, b, A, 1.5, tolerance, 100000);
             // preconditionedIncompleteCholeskyConjugateGradientSolver(FemMat, b, A, 1e-6, 100000);
@@ -133,10 +134,11 @@ namespace nikfemm {
             std::vector<double> r(system.b.size());  // residual
 
             double residual = 1e10;
+            double tolerance = norm_b > 0 ? std::min(1e-7, 1e-9 * norm_b) : 1e-7;
             for (uint32_t i = 0; i < 500; i++) {
                 // conjugateGradientSolver(FemMat, b, A, 1e-7, 10000);
                 // preconditionedJacobiConjugateGradientSolver(FemMat, b, A, 1e-7, 1000);
-                preconditionedSSORConjugateGradientSolver(FemMat, b, A, 1.5, 1e-7, 50);
+                preconditionedSSORConjugateGradientSolver(FemMat, b, A, 1.5, tolerance, 50);
                 // preconditionedIncompleteCholeskyConjugateGradientSolver(FemMat, b, A, 1e-7, 1000);
                 // mesh.Aplot(A);
                 // mesh.Bplot(B);
@@ -144,19 +146,28 @@ namespace nikfemm {
                 B = mesh.computeCurl(A);
                 // mesh.Bplot(B);
 
-                // check if the solution is correct
-                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
-                FemMat.evaluate(mu);
-                for (uint32_t i = 0; i < system.b.size(); i++) {
-                    b[i] = system.b[i].evaluate(mu);
+                // check if the solution is correct, with the permeabilities that the field itself implies
+                std::vector<double> field_mu(mu.size());
+                for (uint32_t j = 0; j < mu.size(); j++) {
+                    field_mu[j] = props[j]->getMu(B[j].norm());
+                }
+                FemMat.evaluate(field_mu);
+                for (uint32_t j = 0; j < system.b.size(); j++) {
+                    b[j] = system.b[j].evaluate(field_mu);
                 }
                 mult(r, FemMat, A);
                 sub(r, b, r);
                 residual = norm(r);
-                if (residual < 1e-7) {
+                if (residual < tolerance) {
                     nloginfo("Converged in %d iterations", i);
                     break;
                 }
+
+                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
+                FemMat.evaluate(mu);
+                for (uint32_t i = 0; i < system.b.size(); i++) {
+                    b[i] = system.b[i].evaluate(mu);
+                }
                 // nloginfo("%.17g, %.17g; ", K, residual);
                 nloginfo("nonlinear iteration %d, residual: %.17g", i, residual);
                 // print mu
-- 
2.43.0


From 0b31e210e017a7103824399dbe34ce5074970d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 30/81] fix: the triangles of a body are found also along
 slanted edges and notches

Rounding dropped triangles with a vertex on a slanted edge, and triangles that
fill a notch between vertices of the body were counted.
---
 lib/nikfemm/src/mesh/mesh.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 9567ed8..f8707c9 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -112,6 +112,7 @@ namespace nikfemm {
         std::vector<Vector> computeCurl(std::vector<double>& in) const;
         std::vector<Vector> computeGrad(std::vector<double>& in) const;
         Polygon getInnermostPolygon(Vector p);
+        bool elemInPolygon(uint32_t elem_id, const Polygon& polygon);
         double computeAreaIntegral(Vector p);
         double computeMass(Vector p, double density);
         Vector computeBarycenter(Vector p);
@@ -502,6 +503,18 @@ namespace nikfemm {
         return integration_region;
     }
 
+    template <typename Prop>
+    bool Mesh<Prop>::elemInPolygon(uint32_t elem_id, const Polygon& polygon) {
+        // the edges of the polygon are edges of the mesh, so the barycenter of an element tells which side it is on
+        if (!polygon.contains(data.getElemBarycenter(elem_id))) return false;
+        // but an element of the exterior can lie around the polygon: its vertices do not even touch the polygon
+        double tolerance = 1e-6 * Vector::distance(data.pointlist[data.trianglelist[elem_id][0]], data.pointlist[data.trianglelist[elem_id][1]]);
+        for (uint8_t j = 0; j < 3; j++) {
+            if (!polygon.contains(data.pointlist[data.trianglelist[elem_id][j]], true, tolerance)) return false;
+        }
+        return true;
+    }
+
     template <typename Prop>
     double Mesh<Prop>::computeAreaIntegral(Vector p) {
         Polygon integration_region = getInnermostPolygon(p);
@@ -513,7 +526,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (elemInPolygon(i, integration_region)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -539,7 +552,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (elemInPolygon(i, integration_region)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -560,7 +573,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (elemInPolygon(i, integration_region)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-- 
2.43.0


From 548d84d6db46868c2e14062161a7abd3d0f6c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 31/81] fix: barycenters and moments of inertia refer to the
 coordinates of the drawing

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index f8707c9..0dc8896 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -559,7 +559,8 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        // back to the coordinates of the drawing
+        return barycenter / area + center;
     }
 
     template <typename Prop>
@@ -576,7 +577,7 @@ namespace nikfemm {
             if (elemInPolygon(i, integration_region)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
-                Vector r = triangle_barycenter - center;
+                Vector r = triangle_barycenter + this->center - center;
                 moment += triangle_area * r.normSquared();
             }
         }
-- 
2.43.0


From f02663007cd085103e91f2900b056d97531c8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 32/81] fix: the moment of inertia includes that of each
 triangle about itself

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 0dc8896..4e26560 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -578,7 +578,9 @@ namespace nikfemm {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter + this->center - center;
-                moment += triangle_area * r.normSquared();
+                // about its own barycenter a triangle has area / 36 times the sum of its squared sides
+                double own = (Vector(p2 - p1).normSquared() + Vector(p3 - p2).normSquared() + Vector(p1 - p3).normSquared()) / 36;
+                moment += triangle_area * (r.normSquared() + own);
             }
         }
 
-- 
2.43.0


From 2d119933658f2ae4d55ea57484b20acbb164965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 33/81] fix: a polygon drawn twice is still found

---
 lib/nikfemm/src/mesh/mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 4e26560..d7d9337 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -488,7 +488,8 @@ namespace nikfemm {
             for (auto polygon : polygons_that_contain_p) {
                 bool is_integration_region = true;
                 for (auto other_polygon : polygons_that_contain_p) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
+                    // polygons that contain each other are the same one drawn twice
+                    if (polygon.contains(other_polygon) && !other_polygon.contains(polygon)) {
                         is_integration_region = false;
                         break;
                     }
-- 
2.43.0


From 21be218b13512194ce792253374b2178c51c1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 34/81] fix: forces and torques on nested bodies use the region
 that surrounds them

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 43 +++++---------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index a6fc433..c31d0a3 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -190,46 +190,23 @@ namespace nikfemm {
         std::vector<Polygon> boundary_region_holes;
 
         // find the region that immediately surrounds the integration region
-        std::vector<Polygon> polygons_that_contain_integration_region;
+        bool found_boundary_region = false;
         for (auto polygon : mesh.drawing.polygons) {
-            if (polygon.contains(integration_region) && polygon != integration_region) {
-                polygons_that_contain_integration_region.push_back(polygon);
-            }
-        }
-        // if there is more than one polygon that contains the integration region then we have to keep
-        // removing polygons that aren't contained by any other polygon that contains the integration region
-        // until we are left with one polygon
-        int count = 0;
-        while (polygons_that_contain_integration_region.size() > 1) {
-            for (auto polygon : polygons_that_contain_integration_region) {
-                bool is_outermost_polygon = true;
-                for (auto other_polygon : polygons_that_contain_integration_region) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                        is_outermost_polygon = false;
-                        break;
-                    }
-                }
-                if (is_outermost_polygon) {
-                    // remove polygon from polygons_that_contain_integration_region
-                    polygons_that_contain_integration_region.erase(
-                        std::remove(polygons_that_contain_integration_region.begin(),
-                                    polygons_that_contain_integration_region.end(),
-                                    polygon),
-                        polygons_that_contain_integration_region.end());
+            // polygons that contain each other are the same one drawn twice
+            if (polygon.contains(integration_region) && !integration_region.contains(polygon)) {
+                if (!found_boundary_region || boundary_region.contains(polygon)) {
+                    boundary_region = polygon;
+                    found_boundary_region = true;
                 }
             }
-            count++;
-            if (count > 100) {
-                nexit("error: could not find outermost polygon");
-            }
         }
-
-        // the boundary region is the polygon that is left
-        boundary_region = *polygons_that_contain_integration_region.begin();
+        if (!found_boundary_region) {
+            nexit("error: no polygon surrounds the integration region");
+        }
 
         // find the holes in the boundary region (every polygon that is contained by the boundary region but isn't contained by the integration region)
         for (auto polygon : mesh.drawing.polygons) {
-            if (boundary_region.contains(polygon) && !integration_region.contains(polygon) && polygon != boundary_region && polygon != integration_region) {
+            if (boundary_region.contains(polygon) && !integration_region.contains(polygon) && !polygon.contains(integration_region)) {
                 boundary_region_holes.push_back(polygon);
             }
         }
-- 
2.43.0


From 3515615c12c8f27ecb1e26c49dff3b2d5fd0a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 35/81] fix: the weighting function of forces and torques is
 prescribed on all its fixed vertices

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 90 ++++++++++----------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index c31d0a3..46f3aac 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -402,38 +402,39 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
         for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
+            uint32_t ids[2] = {(uint32_t)(id >> 32), (uint32_t)(id & 0xFFFFFFFF)};
+            bool fixed[2];
+            double fixed_value[2];
+
+            for (uint8_t k = 0; k < 2; k++) {
+                bool in_zero_region = !vertex_inside_boundary_region[ids[k]] || vertex_inside_boundary_region_hole[ids[k]];
+                bool in_one_region = vertex_inside_integration_region_with_boundary[ids[k]];
+                fixed[k] = in_zero_region || in_one_region;
+                fixed_value[k] = in_zero_region ? 0 : 1;
+            }
 
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
+            if (ids[0] == ids[1]) {
+                if (fixed[0]) {
                     value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
+                    b[ids[0]] = fixed_value[0];
                 }
+            } else {
+                // the matrix is symmetric, so each entry belongs to the equations of both vertices
+                if (fixed[0] && !fixed[1]) b[ids[1]] -= value * fixed_value[0];
+                if (fixed[1] && !fixed[0]) b[ids[0]] -= value * fixed_value[1];
+                if (fixed[0] || fixed[1]) value = 0;
             }
-            val++;
         }
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
+        // start from the prescribed values so that they hold exactly whenever the solver stops
         auto g = std::vector<double>(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            g[i] = !in_zero_region && vertex_inside_integration_region_with_boundary[i] ? 1 : 0;
+        }
 
         // the error for this function varies a lot, so I just set the gradient to do at least 100 iterations and eventually stop at 1e-100
         preconditionedSSORConjugateGradientSolver(Ai, b, g, 1.5, 1e-100, 100);
@@ -567,38 +568,39 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
         for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
+            uint32_t ids[2] = {(uint32_t)(id >> 32), (uint32_t)(id & 0xFFFFFFFF)};
+            bool fixed[2];
+            double fixed_value[2];
+
+            for (uint8_t k = 0; k < 2; k++) {
+                bool in_zero_region = !vertex_inside_boundary_region[ids[k]] || vertex_inside_boundary_region_hole[ids[k]];
+                bool in_one_region = vertex_inside_integration_region_with_boundary[ids[k]];
+                fixed[k] = in_zero_region || in_one_region;
+                fixed_value[k] = in_zero_region ? 0 : 1;
+            }
 
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
+            if (ids[0] == ids[1]) {
+                if (fixed[0]) {
                     value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
+                    b[ids[0]] = fixed_value[0];
                 }
+            } else {
+                // the matrix is symmetric, so each entry belongs to the equations of both vertices
+                if (fixed[0] && !fixed[1]) b[ids[1]] -= value * fixed_value[0];
+                if (fixed[1] && !fixed[0]) b[ids[0]] -= value * fixed_value[1];
+                if (fixed[0] || fixed[1]) value = 0;
             }
-            val++;
         }
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
+        // start from the prescribed values so that they hold exactly whenever the solver stops
         auto g = std::vector<double>(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            g[i] = !in_zero_region && vertex_inside_integration_region_with_boundary[i] ? 1 : 0;
+        }
 
         // the error for this function varies a lot, so I just set the gradient to do at least 100 iterations and eventually stop at 1e-100
         preconditionedSSORConjugateGradientSolver(Ai, b, g, 1.5, 1e-100, 100);
-- 
2.43.0


From 1202d11311468fdde48965a1b5c55cec63c90915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 36/81] fix: the weighting function of forces and torques
 vanishes on the borders of the surrounding region

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 46f3aac..c94fddc 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -292,10 +292,11 @@ namespace nikfemm {
             Vector mypoint = mesh.data.pointlist[i];
             bool inside_integration_region_with_boundary = integration_region.contains(mypoint, true, mesh.epsilon);
             bool inside_integration_region = integration_region.contains(mypoint, false, mesh.epsilon);
-            bool inside_boundary_region = boundary_region.contains(mypoint, true, mesh.epsilon);
+            // the weighting function vanishes on the borders of the boundary region and of its holes
+            bool inside_boundary_region = boundary_region.contains(mypoint, false, mesh.epsilon);
             bool inside_boundary_region_hole = false;
             for (auto& hole : boundary_region_holes) {
-                if (hole.contains(mypoint, false, mesh.epsilon)) {
+                if (hole.contains(mypoint, true, mesh.epsilon)) {
                     inside_boundary_region_hole = true;
                     break;
                 }
@@ -455,7 +456,7 @@ namespace nikfemm {
             bool inside = true;
             for (uint32_t j = 0; j < 3; j++) {
                 uint32_t v = mesh.data.trianglelist[i][j];
-                if (vertex_inside_integration_region[v] || !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v]) {
+                if (vertex_inside_integration_region[v]) {
                     inside = false;
                     break;
                 }
@@ -621,7 +622,7 @@ namespace nikfemm {
             bool inside = true;
             for (uint32_t j = 0; j < 3; j++) {
                 uint32_t v = mesh.data.trianglelist[i][j];
-                if (vertex_inside_integration_region[v] || !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v]) {
+                if (vertex_inside_integration_region[v]) {
                     inside = false;
                     break;
                 }
-- 
2.43.0


From 442003ae0d96cd883efee57f6ad78371cba90fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 37/81] fix: torques refer to the coordinates of the drawing

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index c94fddc..499fb04 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -545,7 +545,7 @@ namespace nikfemm {
                 double c3 = (mesh.data.pointlist[v2].x - mesh.data.pointlist[v1].x) / area;
 
                 Vector barycenter = (mesh.data.pointlist[v1] + mesh.data.pointlist[v2] + mesh.data.pointlist[v3]) / 3;
-                Vector r = barycenter - center;
+                Vector r = barycenter + mesh.center - center;
 
                 double K1 = - r.y * 0.5 * myB.normSquared() - myB.x * (r ^ myB);
                 double K2 = r.x * 0.5 * myB.normSquared() - myB.y * (r ^ myB);
@@ -643,7 +643,7 @@ namespace nikfemm {
                 double area = Vector::area(p1, p2, p3);
 
                 Vector barycenter = (p1 + p2 + p3) / 3;
-                Vector r = barycenter - center;
+                Vector r = barycenter + mesh.center - center;
 
                 torque += ((r ^ my_nabla_g) * my_B.normSquared() * 0.5 - (r ^ my_B) * (my_B * my_nabla_g)) * area;
                 // force += (my_nabla_g * 0.5 * my_B.normSquared() - my_B * (my_nabla_g * my_B)) * area;
-- 
2.43.0


From 710beae24be4fec59cfa391bd30446739575a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 38/81] fix: force and torque are zero, not NaN, where there is
 no field

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 499fb04..377a536 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -419,6 +419,8 @@ namespace nikfemm {
                 if (fixed[0]) {
                     value = 1;
                     b[ids[0]] = fixed_value[0];
+                } else if (value == 0) {
+                    value = 1; // no field around this vertex, any weight will do
                 }
             } else {
                 // the matrix is symmetric, so each entry belongs to the equations of both vertices
@@ -585,6 +587,8 @@ namespace nikfemm {
                 if (fixed[0]) {
                     value = 1;
                     b[ids[0]] = fixed_value[0];
+                } else if (value == 0) {
+                    value = 1; // no field around this vertex, any weight will do
                 }
             } else {
                 // the matrix is symmetric, so each entry belongs to the equations of both vertices
-- 
2.43.0


From 4eddcfcc883dbaede751fcb51f5a40f4469986b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 39/81] fix: a copied, assigned or moved mesh owns its arrays

---
 lib/nikfemm/src/mesh/mesh.hpp | 105 ++++++++++++++++++++++++++--------
 1 file changed, 81 insertions(+), 24 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index d7d9337..d3b9bc5 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -1,7 +1,9 @@
 #ifndef NIK_VIRTUAL_MESH_HPP
 #define NIK_VIRTUAL_MESH_HPP
 
+#include <algorithm>
 #include <cstdint>
+#include <cstdlib>
 #include <map>
 
 #include "../algebra/coo.hpp"
@@ -23,33 +25,33 @@ namespace nikfemm {
         Vector *pointlist = nullptr;                                               /* In / out */
         TRI_REAL *pointattributelist = nullptr;                                      /* In / out */
         int *pointmarkerlist = nullptr;                                          /* In / out */
-        int numberofpoints;                                            /* In / out */
-        int numberofpointattributes;                                   /* In / out */
+        int numberofpoints = 0;                                            /* In / out */
+        int numberofpointattributes = 0;                                   /* In / out */
 
         Elem *trianglelist = nullptr;                                             /* In / out */
         TRI_REAL *triangleattributelist = nullptr;                                   /* In / out */
         TRI_REAL *trianglearealist = nullptr;                                         /* In only */
         int *neighborlist = nullptr;                                             /* Out only */
-        int numberoftriangles;                                         /* In / out */
-        int numberofcorners;                                           /* In / out */
-        int numberoftriangleattributes;                                /* In / out */
+        int numberoftriangles = 0;                                         /* In / out */
+        int numberofcorners = 0;                                           /* In / out */
+        int numberoftriangleattributes = 0;                                /* In / out */
 
         int *segmentlist = nullptr;                                              /* In / out */
         int *segmentmarkerlist = nullptr;                                        /* In / out */
-        int numberofsegments;                                          /* In / out */
+        int numberofsegments = 0;                                          /* In / out */
 
         TRI_REAL *holelist = nullptr;                        /* In / pointer to array copied out */
-        int numberofholes;                                      /* In / copied out */
+        int numberofholes = 0;                                      /* In / copied out */
 
         TRI_REAL *regionlist = nullptr;                      /* In / pointer to array copied out */
-        int numberofregions;                                    /* In / copied out */
+        int numberofregions = 0;                                    /* In / copied out */
 
         int *edgelist = nullptr;                                                 /* Out only */
         int *edgemarkerlist = nullptr;            /* Not used with Voronoi diagram; out only */
         TRI_REAL *normlist = nullptr;                /* Used only with Voronoi diagram; out only */
-        int numberofedges;                                             /* Out only */
+        int numberofedges = 0;                                             /* Out only */
 
-        int hullsize;                                                  /* Out only */
+        int hullsize = 0;                                                  /* Out only */
 
         inline Vector getElemBarycenter(uint32_t elem_id) {
             Elem myelem = trianglelist[elem_id];
@@ -91,6 +93,49 @@ namespace nikfemm {
             Elem myelem = trianglelist[elem_id];
             return pointInTriangle(point, pointlist[myelem[0]], pointlist[myelem[1]], pointlist[myelem[2]]);
         }
+
+        template <typename T>
+        static T* cloneArray(const T* array, size_t size) {
+            if (array == nullptr || size == 0) return nullptr;
+            T* copy = (T*) malloc(size * sizeof(T));
+            std::copy(array, array + size, copy);
+            return copy;
+        }
+
+        // a copy that owns its arrays (the input only ones are not kept)
+        inline MeshData clone() const {
+            MeshData copy = *this;
+            copy.pointlist = cloneArray(pointlist, numberofpoints);
+            copy.pointattributelist = cloneArray(pointattributelist, (size_t) numberofpoints * numberofpointattributes);
+            copy.pointmarkerlist = cloneArray(pointmarkerlist, numberofpoints);
+            copy.trianglelist = cloneArray(trianglelist, numberoftriangles);
+            copy.triangleattributelist = cloneArray(triangleattributelist, (size_t) numberoftriangles * numberoftriangleattributes);
+            copy.trianglearealist = nullptr;
+            copy.neighborlist = cloneArray(neighborlist, (size_t) numberoftriangles * 3);
+            copy.segmentlist = cloneArray(segmentlist, (size_t) numberofsegments * 2);
+            copy.segmentmarkerlist = cloneArray(segmentmarkerlist, numberofsegments);
+            copy.holelist = nullptr;
+            copy.regionlist = nullptr;
+            copy.edgelist = cloneArray(edgelist, (size_t) numberofedges * 2);
+            copy.edgemarkerlist = cloneArray(edgemarkerlist, numberofedges);
+            copy.normlist = nullptr;
+            return copy;
+        }
+
+        // free the arrays: they were allocated with malloc, both here and by triangle
+        inline void release() {
+            free(pointlist);
+            free(pointattributelist);
+            free(pointmarkerlist);
+            free(trianglelist);
+            free(triangleattributelist);
+            free(neighborlist);
+            free(segmentlist);
+            free(segmentmarkerlist);
+            free(edgelist);
+            free(edgemarkerlist);
+            *this = MeshData();
+        }
     };
     template <typename Prop>
     struct Mesh {
@@ -103,6 +148,9 @@ namespace nikfemm {
         MeshData data;
         Drawing<Prop> drawing;
 
+        Mesh() = default;
+        Mesh(const Mesh& other);
+        Mesh& operator=(const Mesh& other);
         ~Mesh();
 
         void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool split_boundary = true);
@@ -133,20 +181,29 @@ namespace nikfemm {
 #endif
     };
 
+    template <typename Prop>
+    Mesh<Prop>::Mesh(const Mesh<Prop>& other) :
+        center(other.center), radius(other.radius), default_prop(other.default_prop), epsilon(other.epsilon),
+        depth(other.depth), data(other.data.clone()), drawing(other.drawing) {
+    }
+
+    template <typename Prop>
+    Mesh<Prop>& Mesh<Prop>::operator=(const Mesh<Prop>& other) {
+        if (this == &other) return *this;
+        center = other.center;
+        radius = other.radius;
+        default_prop = other.default_prop;
+        epsilon = other.epsilon;
+        depth = other.depth;
+        drawing = other.drawing;
+        data.release();
+        data = other.data.clone();
+        return *this;
+    }
+
     template <typename Prop>
     Mesh<Prop>::~Mesh() {
-        // we don't know how triangle allocated the memory
-        if (data.pointlist != nullptr) free(data.pointlist);
-        if (data.pointattributelist != nullptr) free(data.pointattributelist);
-        if (data.pointmarkerlist != nullptr) free(data.pointmarkerlist);
-        if (data.trianglelist != nullptr) free(data.trianglelist);
-        if (data.triangleattributelist != nullptr) free(data.triangleattributelist);
-        if (data.neighborlist != nullptr) free(data.neighborlist);
-        if (data.segmentlist != nullptr) free(data.segmentlist);
-        if (data.segmentmarkerlist != nullptr) free(data.segmentmarkerlist);
-        if (data.holelist != nullptr) free(data.holelist);
-        if (data.edgelist != nullptr) free(data.edgelist);
-        if (data.edgemarkerlist != nullptr) free(data.edgemarkerlist);
+        data.release();
     }
 
     template <typename Prop>
@@ -353,13 +410,13 @@ namespace nikfemm {
         data.pointlist = (Vector *) realloc(data.pointlist, new_point_number * sizeof(Vector));
         // I actually don't need these
         // data.pointattributelist = (TRI_REAL *) realloc(data.pointattributelist, new_point_number * sizeof(TRI_REAL));
-        // data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
+        data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
 
         // add kelvin mesh non boundary vertices to this mesh
         for (uint32_t i = 0; i < kelvin_mesh.data.numberofpoints; i++) {
             if (!kelvin_mesh.data.pointmarkerlist[i]) {
                 data.pointlist[data.numberofpoints] = kelvin_mesh.data.pointlist[i];
-                // data.pointmarkerlist[data.numberofpoints] = 0;
+                data.pointmarkerlist[data.numberofpoints] = 0;
                 kelvin_to_this[i] = data.numberofpoints;
                 data.numberofpoints++;
             }
-- 
2.43.0


From ae43a0ba23e3abf0a28e45b2f90f2cea5d7f699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 40/81] fix: meshing again frees the previous mesh

---
 lib/nikfemm/src/mesh/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index d3b9bc5..5278fe2 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -281,6 +281,7 @@ namespace nikfemm {
 
         /* Make necessary initializations so that Triangle can return a */
         /*   triangulation in `mid' and a voronoi diagram in `vorout'.  */
+        data.release();  // of the previous mesh, if any
 
         data.pointlist = (Vector *) NULL;            /* Not needed if -N switch used. */
         /* Not needed if -N switch used or number of point attributes is zero: */
-- 
2.43.0


From 5c8d3ec76ea46dc4bfca86cca21c610d269cd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 41/81] fix: generating a magnetostatic system again keeps the
 position of the drawing

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 377a536..ad0652a 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -51,10 +51,11 @@ namespace nikfemm {
         }
         double coeff = 1.5;  // make the circle [coeff] times the size of the smallest circle
         // set simulation offset and boundary radius
-        mesh.center = smallest_circle.center;
+        // the drawing is already translated by the current center, if a mesh was generated before
+        mesh.center = mesh.center + smallest_circle.center;
         mesh.radius = smallest_circle.radius * coeff;
         // translate everything to the origin
-        mesh.drawing.translate(-mesh.center);
+        mesh.drawing.translate(-smallest_circle.center);
         // make circle double the size of the smallest circle
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
-- 
2.43.0


From dd8d180d4814225a3b6595f2c4a91818b41ad3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 42/81] fix: the points that refine around magnets keep the
 spacing of the drawing

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 3529cee..ba5e0b0 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -132,9 +132,7 @@ namespace nikfemm {
         for (auto region_poly_array : polygons_that_contain_magnet_region) {
             if (region_poly_array.second.size() == 1) {
                 // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back(region_poly_array.second[0]);
-                }
+                magnets.push_back(region_poly_array.second[0]);
             } else {
                 // this array contains a magnet and other polygons that contain the polygon that is a magnet
                 // we need to find the polygon that does not contain any other polygon that contains the same region
@@ -153,13 +151,14 @@ namespace nikfemm {
             }
         }
         nloginfo("Found %lu magnets", magnets.size());
+        // of the drawing as it is now: the points added along an edge must not make those of the next one denser
+        double epsilon = drawing.getCurrentEpsilon();
         for (auto polygon : magnets) {
             for (uint32_t i = 0; i < polygon.points.size(); i++) {
                 Vector p1 = polygon.points[i];
                 Vector p2 = polygon.points[(i + 1) % polygon.points.size()];
                 
                 double multiplier = 10;
-                double epsilon = drawing.getCurrentEpsilon();
                 uint32_t n_points = Vector::distance(p1, p2) / (epsilon / multiplier);
                 // multiply by 1.1 to make sure that the points are far enough to not trigger conformity checks
                 // Vector normal = Vector::normal(p1, p2).versor() * (drawing.epsilon / multiplier) * 1.1;
-- 
2.43.0


From 4d81669bc72de2ed3aa78eded6fff727150d90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 43/81] fix: the points that refine around magnets stay off
 every edge

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index ba5e0b0..c6b9888 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -185,8 +185,7 @@ namespace nikfemm {
                                     // check if the point is at least drawing.epsilon away from the edge
                                     Vector p3 = other_polygon.points[l];
                                     Vector p4 = other_polygon.points[(l + 1) % other_polygon.points.size()];
-                                    if (Vector::distance(mypoints[k], p3) < epsilon / multiplier ||
-                                        Vector::distance(mypoints[k], p4) < epsilon / multiplier) {
+                                    if (Segment::pointSegmentDistance(mypoints[k], p3, p4) < epsilon / multiplier) {
                                         mypoints_ok[k] = false;
                                         break;
                                     }
-- 
2.43.0


From cb9bb9be78c3d1a876e65b6423e3cfaf595cd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 44/81] fix: the mesher can run in several threads at once

---
 lib/nikfemm/src/triangle/triangle.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index e5660a8..9cd586a 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -651,16 +651,16 @@ struct memorypool {
 
 /* Global constants.                                                         */
 
-static REAL splitter;       /* Used to split REAL factors for exact multiplication. */
-static REAL epsilon;                             /* Floating-point machine epsilon. */
-static REAL resulterrbound;
-static REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
-static REAL iccerrboundA, iccerrboundB, iccerrboundC;
-static REAL o3derrboundA, o3derrboundB, o3derrboundC;
+static thread_local REAL splitter;       /* Used to split REAL factors for exact multiplication. */
+static thread_local REAL epsilon;                             /* Floating-point machine epsilon. */
+static thread_local REAL resulterrbound;
+static thread_local REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
+static thread_local REAL iccerrboundA, iccerrboundB, iccerrboundC;
+static thread_local REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 /* Random number seed is not constant, but I've made it global anyway.       */
 
-unsigned long randomseed;                     /* Current random number seed. */
+thread_local unsigned long randomseed;                     /* Current random number seed. */
 
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
-- 
2.43.0


From 44471abd6cf7ba0109fc41c999734a3deea21ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 45/81] fix: a polygon without points is refused

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 090158b..65f834a 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -148,6 +148,9 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPolygon(Vector* points, uint32_t n_points) {
+        if (n_points == 0) {
+            nexit("drawPolygon: a polygon needs points");
+        }
         for (uint32_t i = 0; i < n_points - 1; i++) {
             drawSegment(points[i], points[i + 1]);
         }
-- 
2.43.0


From a35e884faba5c0b1641c39cf1f27b3ddc8928522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 46/81] fix: a sheet without any region is refused

---
 lib/nikfemm/src/current_density/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b827c14..5b28b53 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -6,6 +6,10 @@ namespace nikfemm {
     }
 
     System<double> CurrentDensityMesh::getFemSystem() {
+        if (data.numberoftriangles > 0 && data.triangleattributelist == nullptr) {
+            nexit("error: the drawing has no regions");
+        }
+
         System<double> system(data.numberofpoints);
 
         auto start = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 3d03de53fa951a089af44306b605b4a0205ac5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 47/81] fix: a Dirichlet condition on a node that does not
 exist is refused

---
 lib/nikfemm/src/algebra/system.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/algebra/system.hpp b/lib/nikfemm/src/algebra/system.hpp
index 5d22d95..920f383 100644
--- a/lib/nikfemm/src/algebra/system.hpp
+++ b/lib/nikfemm/src/algebra/system.hpp
@@ -16,6 +16,10 @@ namespace nikfemm {
         System(System<WeightType> const& other) : A(other.A), b(other.b) {}
 
         void addDirichletBoundaryCondition(uint32_t id, double value) {
+            if (id >= b.size()) {
+                nexit("addDirichletBoundaryCondition: no such node");
+            }
+
             // https://community.freefem.org/t/implementation-of-dirichlet-boundary-condition-when-tgv-1/113
             // this function lets you set a Dirichlet boundary condition on a node
 
-- 
2.43.0


From 22bfc42b41dd3191b949daf6af6facab15772593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 48/81] fix: matrix entries outside the matrix are refused

---
 lib/nikfemm/src/algebra/coo.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/algebra/coo.hpp b/lib/nikfemm/src/algebra/coo.hpp
index 981753b..a64f6d5 100644
--- a/lib/nikfemm/src/algebra/coo.hpp
+++ b/lib/nikfemm/src/algebra/coo.hpp
@@ -39,6 +39,9 @@ namespace nikfemm {
         if (_m > _n) {
             nexit("MatCOOSymmetric: m > n not allowed");
         }
+        if (_n >= m) {
+            nexit("MatCOOSymmetric: index out of range");
+        }
         uint64_t key = (uint64_t)_m << 32 | (uint64_t)_n;
         // check if key exists
         if (elems.find(key) == elems.end()) {
-- 
2.43.0


From 9f785bb24b8f6019448874d3e2149fea6d0dd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 49/81] fix: layers that do not exist are refused

---
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 60b26f6..21abd08 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -60,6 +60,11 @@ namespace nikfemm {
 
         // add points where the interconnections are so that we can have the precise point in the mesh for it
         // insteaad of relying on the nearest point
+        for (auto& interconnection : interconnections) {
+            if (interconnection.layer1_id >= meshes.size() || interconnection.layer2_id >= meshes.size()) {
+                nexit("interconnection: no such layer");
+            }
+        }
         for (auto& interconnection : interconnections) {
             // the drawing algorithm will check internally if the point is already in the mesh
             // I could check if the point is inside the simulation domain but it will error out anyways if it is not
@@ -243,6 +248,9 @@ namespace nikfemm {
         // find the closest node
         int32_t closest_node = -1;
         double closest_distance = INFINITY;
+        if (layer_id >= meshes.size()) {
+            nexit("setVoltage: no such layer");
+        }
         auto& mesh = meshes[layer_id];
 
         // precompute useful offsets
-- 
2.43.0


From ae3315dac1c925c598908e182961d831e53ee5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 50/81] fix: the solvers refuse vectors of another size than
 the matrix

---
 lib/nikfemm/src/algebra/solvers.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index f1385c1..127be74 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -1,7 +1,14 @@
 #include "solvers.hpp"
 #include "math.hpp"
+#include "../utils/utils.hpp"
 
 namespace nikfemm {
+    static void checkSizes(const MatCSRSymmetric& A, const std::vector<double>& b, const std::vector<double>& x) {
+        if (b.size() != A.m || x.size() != A.m) {
+            nexit("solver: the matrix and the vectors do not have the same size");
+        }
+    }
+
     void multSSORPreconditioner(const MatCSRSymmetric& A, std::vector<double>& result, const std::vector<double>& cv, double omega) {
         double temp = omega * (2 - omega);
         for (uint32_t i = 0; i < A.m; i++) {
@@ -82,6 +89,7 @@ namespace nikfemm {
     }
 
     void conjugateGradientSolver(const MatCSRSymmetric& A, const std::vector<double>& b, std::vector<double>& x, double maxError, uint32_t maxIterations) {
+        checkSizes(A, b, x);
         std::vector<double> r(b.size());
         std::vector<double> p(b.size());
         std::vector<double> Ap(b.size());
@@ -118,6 +126,7 @@ namespace nikfemm {
     }
 
     void preconditionedJacobiConjugateGradientSolver(const MatCSRSymmetric& A, const std::vector<double>& b, std::vector<double>& x, double maxError, uint32_t maxIterations) {
+        checkSizes(A, b, x);
         std::vector<double> r(b.size());
         mult(r, A, x);
         sub(r, b, r);
@@ -163,6 +172,7 @@ namespace nikfemm {
     }
 
     void preconditionedSSORConjugateGradientSolver(const MatCSRSymmetric& A, const std::vector<double>& b, std::vector<double>& x, double omega, double maxError, uint32_t maxIterations) {
+        checkSizes(A, b, x);
         std::vector<double> r(b.size());
         mult(r, A, x);
         sub(r, b, r);
@@ -209,6 +219,7 @@ namespace nikfemm {
     }
 
     void preconditionedIncompleteCholeskyConjugateGradientSolver(const MatCSRSymmetric& A, const std::vector<double>& b, std::vector<double>& x, double maxError, uint32_t maxIterations) {
+        checkSizes(A, b, x);
         std::vector<double> r(b.size());
         mult(r, A, x);
         sub(r, b, r);
-- 
2.43.0


From eb0c270a929d49756d6c82da22e6608a59982483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 51/81] fix: a system of another mesh is refused

---
 lib/nikfemm/src/current_density/simulation.cpp | 3 +++
 lib/nikfemm/src/magnetostatic/simulation.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/current_density/simulation.cpp b/lib/nikfemm/src/current_density/simulation.cpp
index e5ebbe3..88f9367 100644
--- a/lib/nikfemm/src/current_density/simulation.cpp
+++ b/lib/nikfemm/src/current_density/simulation.cpp
@@ -69,6 +69,9 @@ namespace nikfemm {
     }
 
     std::vector<double> CurrentDensitySimulation::solve(System<double>& system) {
+        if (system.A.m != mesh.data.numberofpoints || system.b.size() != mesh.data.numberofpoints) {
+            nexit("solve: the system is not of this mesh");
+        }
         auto V = std::vector<double>(mesh.data.numberofpoints);
 
         MatCSRSymmetric FemMat(system.A);
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ad0652a..b3fb234 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -90,6 +90,9 @@ namespace nikfemm {
     }
 
     std::vector<double> MagnetostaticSimulation::solve(System<NonLinearExpression>& system) {
+        if (system.A.m != mesh.data.numberofpoints || system.b.size() != mesh.data.numberofpoints) {
+            nexit("solve: the system is not of this mesh");
+        }
         auto A = std::vector<double>(mesh.data.numberofpoints);
         auto B = std::vector<Vector>(mesh.data.numberoftriangles, {0, 0});
         std::vector<double> mu(mesh.data.numberoftriangles, 0);
-- 
2.43.0


From 8180ae8d4640754fee97c3edefa30602f9013533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 52/81] fix: fields of another mesh are refused

---
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 3 +++
 lib/nikfemm/src/mesh/mesh.hpp                             | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 21abd08..5650aca 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -314,6 +314,9 @@ namespace nikfemm {
             offset += mesh.data.numberofpoints;
         }
         total_numberofpoints = offset;
+        if (V.size() != total_numberofpoints) {
+            nexit("computePowerDensity: one value per point is needed");
+        }
 
         offset = 0;
         for (auto& mesh : meshes) {
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 5278fe2..7b9812c 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -450,6 +450,9 @@ namespace nikfemm {
 
     template <typename Prop>
     std::vector<Vector> Mesh<Prop>::computeCurl(std::vector<double>& in) const {
+        if (in.size() != data.numberofpoints) {
+            nexit("computeCurl: one value per point is needed");
+        }
         std::vector<Vector> out(data.numberoftriangles);
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             Elem myelem = data.trianglelist[i];
@@ -488,6 +491,9 @@ namespace nikfemm {
 
     template <typename Prop>
     std::vector<Vector> Mesh<Prop>::computeGrad(std::vector<double>& in) const {
+        if (in.size() != data.numberofpoints) {
+            nexit("computeGrad: one value per point is needed");
+        }
         std::vector<Vector> out(data.numberoftriangles);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-- 
2.43.0


From 91c64d1cdb548811b31be287ecfda24afa069994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 53/81] fix: forces and torques of a field of another mesh are
 refused

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index b3fb234..2f734a4 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -188,6 +188,10 @@ namespace nikfemm {
     }
 
     auto MagnetostaticSimulation::getSurroundingRegionBlockIntegralAssets(std::vector<Vector> B, Vector p) {
+        if (B.size() != mesh.data.numberoftriangles) {
+            nexit("one value of B per triangle is needed");
+        }
+
         // find the polygon that contains p
         Polygon integration_region = mesh.getInnermostPolygon(p);
         Polygon boundary_region;
-- 
2.43.0


From f2db1a43467d6cceba05a56cb57029d9c2e025ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 54/81] fix: drawings the mesher refuses do not leak

---
 lib/nikfemm/src/mesh/mesh.hpp         | 12 ++++++------
 lib/nikfemm/src/triangle/triangle.cpp |  9 ++++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 7b9812c..a33b035 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -238,9 +238,11 @@ namespace nikfemm {
         };
 
         in.numberofpoints = drawing.points.size();
-        in.pointlist = (TRI_REAL*)malloc(in.numberofpoints * 2 * sizeof(TRI_REAL));
+        std::vector<TRI_REAL> pointlist(in.numberofpoints * 2);
+        in.pointlist = pointlist.data();
         in.numberofsegments = drawing.segments.size();
-        in.segmentlist = (int*)malloc(in.numberofsegments * 2 * sizeof(int));
+        std::vector<int> segmentlist(in.numberofsegments * 2);
+        in.segmentlist = segmentlist.data();
 
         for (uint32_t i = 0; i < drawing.points.size(); i++) {
             in.pointlist[2 * i] = drawing.points[i].x;
@@ -262,7 +264,8 @@ namespace nikfemm {
         in.holelist = NULL;
 
         in.numberofregions = drawing.regions.size();
-        in.regionlist = (TRI_REAL*)malloc(in.numberofregions * 4 * sizeof(TRI_REAL));
+        std::vector<TRI_REAL> regionlist(in.numberofregions * 4);
+        in.regionlist = regionlist.data();
         i = 0;
 
         for (auto r : drawing.regions) {
@@ -299,9 +302,6 @@ namespace nikfemm {
         data.edgemarkerlist = (int *) NULL;   /* Needed if -e used and -B not used. */
 
         triangulate(switches, &in, reinterpret_cast<triangulateio*>(&data), NULL);
-        free(in.pointlist);
-        free(in.segmentlist);
-        free(in.regionlist);
     }
 
     template <typename Prop>
diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 9cd586a..410dde7 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -15754,6 +15754,14 @@ char **argv;
   parsecommandline(argc, argv, &b);
 #endif /* not TRILIBRARY */
   m.steinerleft = b.steiner;
+  m.dummytribase = (triangle *) NULL;
+  m.dummysubbase = (subseg *) NULL;
+  /* Free the memory also when triexit() throws. */
+  struct cleanup {
+    struct mesh *m;
+    struct behavior *b;
+    ~cleanup() { triangledeinit(m, b); }
+  } cleanup = {&m, &b};
 
 #ifdef TRILIBRARY
   transfernodes(&m, &b, in->pointlist, in->pointattributelist,
@@ -16041,7 +16049,6 @@ char **argv;
   }
 #endif /* not REDUCED */
 
-  triangledeinit(&m, &b);
 #ifndef TRILIBRARY
   return 0;
 #endif /* not TRILIBRARY */
-- 
2.43.0


From ae04c02a193b66dc915ff0a339459b76c178adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 55/81] fix: preconditioning a matrix without rows

---
 lib/nikfemm/src/algebra/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index 127be74..23bdbfe 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -30,7 +30,7 @@ namespace nikfemm {
         }
 
         // invert upper triangle
-        for (int64_t i = A.m - 1; i >= 0; i--) {
+        for (int64_t i = (int64_t) A.m - 1; i >= 0; i--) {
             for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) {
                 result[i] -= A.val[k] * result[A.col_ind[k]] * omega;
             }
@@ -65,7 +65,7 @@ namespace nikfemm {
         // invert R (lower triangular) using forward substitution in place
         for (uint32_t i = R.m; i-- > 0;) {
             R.diag[i] = 1 / R.diag[i];
-            for (int64_t j = R.m - 1; j >= i + 1; j--) {
+            for (int64_t j = (int64_t) R.m - 1; j >= i + 1; j--) {
                 double sum = 0;
                 for (uint32_t k = R.row_ptr[i]; k < R.row_ptr[i + 1]; k++) {
                     if (R.col_ind[k] <= j) {
-- 
2.43.0


From bdc3b7aebbde9e981caf7cc94789ca6ba4fb06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 56/81] fix: plots of drawings at negative coordinates

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 65f834a..f3cb452 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -445,9 +445,9 @@ namespace nikfemm {
     template <typename Prop>
     void Drawing<Prop>::plotRend(cv::Mat* image, double width, double height) {
         // get mesh enclosing rectangle
-        double max_x = std::numeric_limits<double>::min();
+        double max_x = std::numeric_limits<double>::lowest();
         double min_x = std::numeric_limits<double>::max();
-        double max_y = std::numeric_limits<double>::min();
+        double max_y = std::numeric_limits<double>::lowest();
         double min_y = std::numeric_limits<double>::max();
 
         for (auto p : points) {
-- 
2.43.0


From 29384123f2140e00b5d4f2561b5be0c68806d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 57/81] fix: colours of matrices without positive entries

---
 lib/nikfemm/src/algebra/csr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 6ab8627..d96386d 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -123,7 +123,7 @@ namespace nikfemm {
 
         // find min and max
         double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::min();
+        double max = std::numeric_limits<double>::lowest();
 
         for (uint32_t i = 0; i < nnz; i++) {
             if (val[i] < min) {
-- 
2.43.0


From d1ceb1928421880b425567c2b32d2094100ca66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 58/81] fix: the colour of a constant field

---
 lib/nikfemm/src/utils/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/utils/utils.cpp b/lib/nikfemm/src/utils/utils.cpp
index 4bb0c40..1fa1ae7 100644
--- a/lib/nikfemm/src/utils/utils.cpp
+++ b/lib/nikfemm/src/utils/utils.cpp
@@ -57,7 +57,9 @@ namespace nikfemm {
             v = vmax;
         dv = vmax - vmin;
 
-        dv = vmax - vmin;
+        // a constant field has one colour
+        if (dv == 0)
+            dv = 1;
 
         // opencv is BGR
         if (v < (vmin + 0.25 * dv)) {
-- 
2.43.0


From 8c02bd700a35a6507c84a1de5015f9a942671cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 59/81] fix: plots of vertices of more than 255 triangles

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index a33b035..7e6fb02 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -747,7 +747,7 @@ namespace nikfemm {
             
             // find the center of the points
             cv::Point center = {0, 0};
-            for (uint8_t j = 0; j < points.size(); j++) {
+            for (size_t j = 0; j < points.size(); j++) {
                 center.x += points[j].x;
                 center.y += points[j].y;
             }
-- 
2.43.0


From 78ca3ce1ff160197ae239f86070d36e1e17709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 60/81] fix: Drawing::getRegionFromId does not compile

---
 lib/nikfemm/src/drawing/drawing.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index f3cb452..7c2bf22 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -181,12 +181,7 @@ namespace nikfemm {
 
     template <typename Prop>
     Prop Drawing<Prop>::getRegionFromId(uint32_t id) const {
-        for (auto it = region_map.begin(); it != region_map.end(); it++) {
-            if (it->second == id) {
-                return it->first;
-            }
-        }
-        nexit("Error: region id not found");
+        return *getRegionPtrFromId(id);
     }
 
     template <typename Prop>
-- 
2.43.0


From 26915be6e0af53d6c4d0fa590b398b480c5ba0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 61/81] fix: plots of fields of another size are refused

---
 lib/nikfemm/src/mesh/mesh.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 7e6fb02..315cf21 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -704,6 +704,9 @@ namespace nikfemm {
     #ifdef NIKFEMM_USE_OPENCV
     template <typename Prop>
     void Mesh<Prop>::NodeScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        if (scalar.empty() || scalar.size() != data.numberofpoints) {
+            nexit("plot: one value per point is needed");
+        }
         double x_scale, y_scale, x_offset, y_offset;
 
         getMeshScaleOffset(width, height, x_scale, y_scale, x_offset, y_offset, clip_to_radius);
@@ -839,6 +842,9 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::ElemScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        if (scalar.empty() || scalar.size() != data.numberoftriangles) {
+            nexit("plot: one value per triangle is needed");
+        }
         double x_scale, y_scale, x_offset, y_offset;
 
         getMeshScaleOffset(width, height, x_scale, y_scale, x_offset, y_offset, clip_to_radius);
-- 
2.43.0


From 8d6d056ce2be92dea10e67f700fd688f3379b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 62/81] fix: clipped plots of meshes without a radius

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 315cf21..b5074c8 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -704,6 +704,7 @@ namespace nikfemm {
     #ifdef NIKFEMM_USE_OPENCV
     template <typename Prop>
     void Mesh<Prop>::NodeScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        clip_to_radius = clip_to_radius && radius > 0;  // only open boundaries have a radius
         if (scalar.empty() || scalar.size() != data.numberofpoints) {
             nexit("plot: one value per point is needed");
         }
@@ -842,6 +843,7 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::ElemScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        clip_to_radius = clip_to_radius && radius > 0;  // only open boundaries have a radius
         if (scalar.empty() || scalar.size() != data.numberoftriangles) {
             nexit("plot: one value per triangle is needed");
         }
-- 
2.43.0


From eb294dab6770a586559787dd3f0afe6fbb7bb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 63/81] fix: plots of drawings without extent

---
 lib/nikfemm/src/drawing/drawing.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 7c2bf22..f6ca3aa 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -460,13 +460,22 @@ namespace nikfemm {
             }
         }
 
+        // a drawing without extent is shown at the centre
+        if (points.empty()) {
+            min_x = max_x = min_y = max_y = 0;
+        }
+        double extent = std::max(max_x - min_x, max_y - min_y);
+        if (extent == 0) {
+            extent = 1;
+        }
+
         // object to window ratio
         double ratio = 0.9;
 
         // x scale factor to loosely fit mesh in window (equal in x and y)
-        double x_scale = ratio * width / std::max(max_x - min_x, max_y - min_y);
+        double x_scale = ratio * width / extent;
         // y scale factor to loosely fit mesh in window
-        double y_scale = ratio * height / std::max(max_x - min_x, max_y - min_y);
+        double y_scale = ratio * height / extent;
         // x offset to center mesh in window
         double x_offset = 0.5 * width - 0.5 * (max_x + min_x) * x_scale;
         // y offset to center mesh in window
-- 
2.43.0


From af717b3053a142d56c089cfbe2ef9c4515bd9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 64/81] fix: the colour of large constant fields is on the
 colour map

---
 lib/nikfemm/src/utils/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/utils/utils.cpp b/lib/nikfemm/src/utils/utils.cpp
index 1fa1ae7..c55f65d 100644
--- a/lib/nikfemm/src/utils/utils.cpp
+++ b/lib/nikfemm/src/utils/utils.cpp
@@ -58,8 +58,10 @@ namespace nikfemm {
         dv = vmax - vmin;
 
         // a constant field has one colour
-        if (dv == 0)
+        if (dv == 0) {
+            v = vmin = 0;
             dv = 1;
+        }
 
         // opencv is BGR
         if (v < (vmin + 0.25 * dv)) {
-- 
2.43.0


From ca9e8e4027f909d934f4dcc096c7fb3255fcbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 65/81] fix: exceptions of the library reach Python

---
 python/nikfemm.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..3793240 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -74,7 +74,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
         }
     }
 
-    self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    try {
+        self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        Py_XDECREF(self);
+        return NULL;
+    }
 
     for (uint32_t i = 0; i < num_layers; i++) {
         PyObject* depth_item = PyList_GetItem(depths, i);
@@ -532,14 +538,25 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
     Py_RETURN_NONE;
 }
 
+// the exceptions of the library must not leave the extension, they would terminate the interpreter
+template<PyObject* (*method)(nikfemm_MultiLayerCurrentDensitySimulation*, PyObject*, PyObject*)>
+static PyObject* nikfemm_guarded(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args) {
+    try {
+        return method(self, args, NULL);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
+}
+
 static PyMethodDef nikfemm_MultiLayerCurrentDensitySimulation_methods[] = {
-    {"generate_system", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_generateSystem, METH_VARARGS, "Generate system of linear equations for current density"},
-    {"solve", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_solve, METH_VARARGS, "Solve system of linear equations for current density"},
-    {"set_voltage", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_setVoltage, METH_VARARGS, "Set voltage on a node"},
-    {"add_interconnection", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
-    {"draw_rectangle", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle, METH_VARARGS, "Draw a rectangle on a layer"},
-    {"draw_region", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRegion, METH_VARARGS, "Draw a region on a layer"},
-    {"draw_polygon", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon, METH_VARARGS, "Draw a polygon on a layer"},
+    {"generate_system", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_generateSystem>, METH_VARARGS, "Generate system of linear equations for current density"},
+    {"solve", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_solve>, METH_VARARGS, "Solve system of linear equations for current density"},
+    {"set_voltage", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_setVoltage>, METH_VARARGS, "Set voltage on a node"},
+    {"add_interconnection", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection>, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
+    {"draw_rectangle", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle>, METH_VARARGS, "Draw a rectangle on a layer"},
+    {"draw_region", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRegion>, METH_VARARGS, "Draw a region on a layer"},
+    {"draw_polygon", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon>, METH_VARARGS, "Draw a polygon on a layer"},
     {NULL} /* Sentinel */
 };
 
-- 
2.43.0


From b6dc772e151faee0c0a4343e7a347fc17330ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 66/81] fix: Python refuses layers that do not exist

---
 python/nikfemm.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 3793240..be30aba 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -106,6 +106,18 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     return (PyObject*)self;
 }
 
+static bool nikfemm_layer(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* item, uint64_t* layer_id) {
+    *layer_id = PyLong_AsUnsignedLong(item);
+    if (PyErr_Occurred()) {
+        return false;
+    }
+    if (*layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer_id is out of range");
+        return false;
+    }
+    return true;
+}
+
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
     // generateSystem may have from 0 to 2 arguments which are: bool, double
     PyObject* refine = Py_True;
@@ -313,7 +325,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "setVoltage must have the third argument of type double");
         return NULL;
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 3), &layer_id)) {
+        return NULL;
+    }
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -370,8 +385,14 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // for each item if it is a long convert it to double, if it is a double use it
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
-    uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer1_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 2), &layer1_id)) {
+        return NULL;
+    }
+    uint64_t layer2_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 3), &layer2_id)) {
+        return NULL;
+    }
     double R;
     if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
@@ -429,7 +450,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     }
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -475,7 +499,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     }
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
     double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -528,7 +555,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         }
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    uint64_t layer_id;
+    if (!nikfemm_layer(self, PyTuple_GetItem(args, 1), &layer_id)) {
+        return NULL;
+    }
 
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
-- 
2.43.0


From c127ff088e2295974a3b48f92aaee5754d5ff10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 67/81] fix: Python refuses points of fewer than two
 coordinates

---
 python/nikfemm.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index be30aba..4fa88ab 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -118,6 +118,14 @@ static bool nikfemm_layer(nikfemm_MultiLayerCurrentDensitySimulation* self, PyOb
     return true;
 }
 
+static bool nikfemm_has_two_items(PyObject* list) {
+    if (PyList_Size(list) < 2) {
+        PyErr_SetString(PyExc_TypeError, "a point must be of type [double, double]");
+        return false;
+    }
+    return true;
+}
+
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
     // generateSystem may have from 0 to 2 arguments which are: bool, double
     PyObject* refine = Py_True;
@@ -303,6 +311,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
     double coords[2];
+    if (!nikfemm_has_two_items(PyTuple_GetItem(args, 1))) {
+        return NULL;
+    }
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 1), i);
         if (PyFloat_Check(item)) {
@@ -370,6 +381,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // the first two arguments are lists of doubles, convert them to Vector
     double coords[2][2];
     for (int i = 0; i < 2; i++) {
+        if (!nikfemm_has_two_items(PyTuple_GetItem(args, i))) {
+            return NULL;
+        }
         for (int j = 0; j < 2; j++) {
             PyObject* item = PyList_GetItem(PyTuple_GetItem(args, i), j);
             if (PyFloat_Check(item)) {
@@ -436,6 +450,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     // the first two arguments are tuples of doubles, convert them to Vector
     double coords[2][2];
     for (int i = 0; i < 2; i++) {
+        if (!nikfemm_has_two_items(PyTuple_GetItem(args, i))) {
+            return NULL;
+        }
         for (int j = 0; j < 2; j++) {
             PyObject* item = PyList_GetItem(PyTuple_GetItem(args, i), j);
             if (PyFloat_Check(item)) {
@@ -486,6 +503,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     // extract arguments
     // the first argument is a tuple of doubles, convert it to Vector
     double coords[2];
+    if (!nikfemm_has_two_items(PyTuple_GetItem(args, 0))) {
+        return NULL;
+    }
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 0), i);
         if (PyFloat_Check(item)) {
-- 
2.43.0


From 27ea9fd1fa28b909c30e30f93e4e3971f64b5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 68/81] fix: Python refuses Systems that hold no system

---
 python/nikfemm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4fa88ab..40170b9 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -223,6 +223,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the System was not returned by generate_system");
+        return NULL;
+    }
     std::vector<double> V = self->simulation->solve(*system);
     std::vector<double> P = self->simulation->computePowerDensity(V);
 
@@ -310,6 +314,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the System was not returned by generate_system");
+        return NULL;
+    }
     double coords[2];
     if (!nikfemm_has_two_items(PyTuple_GetItem(args, 1))) {
         return NULL;
-- 
2.43.0


From 46adccfbc8284e7f4c35bb0f59a50b4429796b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 69/81] fix: Python reports integers beyond all doubles

---
 python/nikfemm.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 40170b9..819ca45 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -90,6 +90,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
         } else if (PyLong_Check(depth_item)) {
             // convert to double
             self->simulation->meshes[i].depth = PyLong_AsDouble(depth_item);
+            if (PyErr_Occurred()) {
+                Py_XDECREF(self);
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "depth must be a double");
             Py_XDECREF(self);
@@ -159,6 +163,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         default:
             break;
     }
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
 
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
@@ -328,6 +335,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
             coords[i] = PyFloat_AsDouble(item);
         } else if (PyLong_Check(item)) {
             coords[i] = PyLong_AsDouble(item);
+            if (PyErr_Occurred()) {
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
@@ -340,6 +350,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         V = PyFloat_AsDouble(PyTuple_GetItem(args, 2));
     } else if (PyLong_Check(PyTuple_GetItem(args, 2))) {
         V = PyLong_AsDouble(PyTuple_GetItem(args, 2));
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
     } else {
         PyErr_SetString(PyExc_TypeError, "setVoltage must have the third argument of type double");
         return NULL;
@@ -398,6 +411,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
                 coords[i][j] = PyFloat_AsDouble(item);
             } else if (PyLong_Check(item)) {
                 coords[i][j] = PyLong_AsDouble(item);
+                if (PyErr_Occurred()) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first two arguments of type [double, double]");
                 return NULL;
@@ -420,6 +436,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
     } else if (PyLong_Check(PyTuple_GetItem(args, 4))) {
         R = PyLong_AsDouble(PyTuple_GetItem(args, 4));
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
     } else {
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have the fifth argument of type double");
         return NULL;
@@ -467,6 +486,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
                 coords[i][j] = PyFloat_AsDouble(item);
             } else if (PyLong_Check(item)) {
                 coords[i][j] = PyLong_AsDouble(item);
+                if (PyErr_Occurred()) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first two arguments of type (double, double)");
                 return NULL;
@@ -520,6 +542,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
             coords[i] = PyFloat_AsDouble(item);
         } else if (PyLong_Check(item)) {
             coords[i] = PyLong_AsDouble(item);
+            if (PyErr_Occurred()) {
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
@@ -576,6 +601,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
                 coords[j] = PyFloat_AsDouble(subitem);
             } else if (PyLong_Check(subitem)) {
                 coords[j] = PyLong_AsDouble(subitem);
+                if (PyErr_Occurred()) {
+                    return NULL;
+                }
             } else {
                 PyErr_SetString(PyExc_TypeError, "drawPolygon must have the first argument of type [[double, double], ...]");
                 return NULL;
-- 
2.43.0


From 4e3478f238e1372558a1158972585f7b80fa2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 70/81] fix: the number of layers from Python is not truncated

---
 python/nikfemm.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 819ca45..eea7a44 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -52,12 +52,18 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     // constructor must have 2 arguments
 
     self = (nikfemm_MultiLayerCurrentDensitySimulation*)type->tp_alloc(type, 0);
-    uint32_t num_layers;
+    Py_ssize_t num_layers;
     PyObject* depths;
 
     if (self != NULL) {
         if (PyTuple_Size(args) == 2) {
-            if (!PyArg_ParseTuple(args, "IO", &num_layers, &depths)) {
+            if (!PyArg_ParseTuple(args, "nO", &num_layers, &depths)) {
+                Py_XDECREF(self);
+                return NULL;
+            }
+
+            if (!PyList_Check(depths)) {
+                PyErr_SetString(PyExc_TypeError, "depths must be a list");
                 Py_XDECREF(self);
                 return NULL;
             }
-- 
2.43.0


From 0d261e5c0163765f477397562e1063f8d78a736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 71/81] fix: what Python methods return is freed

---
 python/nikfemm.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index eea7a44..59214c4 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -185,6 +185,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         py_system->system = new nikfemm::System(system);
     } catch (std::exception& e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
+        Py_DECREF(py_system);
         return NULL;
     }
 
@@ -201,7 +202,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         PyObject* mytriangles = PyList_New(self->simulation->meshes[i].data.numberoftriangles);
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(3, PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+            PyObject* triangle = Py_BuildValue("(NNN)", PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
             PyList_SetItem(mytriangles, j, triangle);
@@ -213,13 +214,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* vertex = PyTuple_Pack(2, PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
+            PyObject* vertex = Py_BuildValue("(NN)", PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
                                               PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y));
             PyList_SetItem(vertices, j + layer_offsets[i], vertex);
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, (PyObject*)py_system, triangles, vertices);
+    PyObject* result = Py_BuildValue("(NNN)", (PyObject*)py_system, triangles, vertices);
 
     return (PyObject*)result;
 }
@@ -257,7 +258,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* voltage = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
+            PyObject* voltage = Py_BuildValue("(NNNN)", PyLong_FromUnsignedLong(i), 
                                                 PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
                                                 PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y), 
                                                 PyFloat_FromDouble(V[j + layer_offsets[i]]));
@@ -271,7 +272,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     PyObject* power_densities = PyList_New(P.size());
 
     for (uint64_t i = 0; i < P.size(); i++) {
-        PyObject* power_density = PyTuple_Pack(2, PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
+        PyObject* power_density = Py_BuildValue("(NN)", PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
         PyList_SetItem(power_densities, i, power_density);
     }
 
@@ -289,7 +290,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
+            PyObject* triangle = Py_BuildValue("(NNNN)", PyLong_FromUnsignedLong(i), 
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
@@ -298,7 +299,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, voltages, triangles, power_densities);
+    PyObject* result = Py_BuildValue("(NNN)", voltages, triangles, power_densities);
 
     return result;
 }
-- 
2.43.0


From 87d61b9e7ce0cb3f1da439216c541d892831f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:22 +0000
Subject: [PATCH 72/81] fix: Python refuses minimum angles that are none

---
 python/nikfemm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 59214c4..07cb1eb 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -172,6 +172,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     if (PyErr_Occurred()) {
         return NULL;
     }
+    if (!(min_angle >= 0 && min_angle <= 60)) {
+        PyErr_SetString(PyExc_ValueError, "min_angle must be between 0 and 60 degrees");
+        return NULL;
+    }
     auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
 
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
-- 
2.43.0


From 74d8a32d87bec6d2c01219e724c5935a4f03ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 73/81] fix: a region outside the drawing does not crash the
 mesher

---
 lib/nikfemm/src/triangle/triangle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 410dde7..6fee096 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -7794,7 +7794,12 @@ struct otri *searchtri;
   if (ahead < 0.0) {
     /* Turn around so that `searchpoint' is to the left of the */
     /*   edge specified by `searchtri'.                        */
-    symself(*searchtri);
+    sym(*searchtri, sampletri);
+    if (sampletri.tri == m->dummytri) {
+      /* There is nothing beyond the edge, it is on the convex hull. */
+      return OUTSIDE;
+    }
+    otricopy(sampletri, *searchtri);
   } else if (ahead == 0.0) {
     /* Check if `searchpoint' is between `torg' and `tdest'. */
     if (((torg[0] < searchpoint[0]) == (searchpoint[0] < tdest[0])) &&
-- 
2.43.0


From f597b81fd6cef4f1c17c960f874260f401216004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 74/81] fix: coordinates that are not finite are refused

---
 lib/nikfemm/src/drawing/drawing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index f6ca3aa..ba24a3b 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -96,6 +96,11 @@ namespace nikfemm {
         private:
             void drawSegment(Vector p1, Vector p2);
             void drawSegment(Segment s);
+            void checkFinite(Vector p) {
+                if (!std::isfinite(p.x) || !std::isfinite(p.y)) {
+                    nexit("Error: the coordinates of a drawing must be finite");
+                }
+            }
     };
 
     // templated member functions must be defined in the header file
@@ -195,12 +200,15 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawRegion(Vector p, Prop val) {
+        checkFinite(p);
         uint32_t region_id = getRegionId(val);
         regions.push_back(DrawingRegion(p, region_id));
     }
 
     template <typename Prop>
     void Drawing<Prop>::drawSegment(Vector p1, Vector p2) {
+        checkFinite(p1);
+        checkFinite(p2);
         // a segment of no length only contributes its point
         if (p1 == p2) {
             drawPoint(p1);
@@ -263,6 +271,7 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        checkFinite(p);
         // a point that is already there must not be added twice
         for (uint32_t i = 0; i < points.size(); i++) {
             if (points[i] == p) {
-- 
2.43.0


From 99f2cc64f0067ba5fcf737dda40b4c5357d185c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:28 +0000
Subject: [PATCH 75/81] fix: a refused shape leaves the drawing as it was

---
 lib/nikfemm/src/drawing/drawing.hpp | 51 ++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index ba24a3b..c6b472e 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -96,6 +96,19 @@ namespace nikfemm {
         private:
             void drawSegment(Vector p1, Vector p2);
             void drawSegment(Segment s);
+            // draws a whole shape, or nothing if a part of it is refused
+            template <typename F>
+            void drawShape(F draw) {
+                size_t n_points = points.size();
+                size_t n_segments = segments.size();
+                try {
+                    draw();
+                } catch (...) {
+                    points.erase(points.begin() + n_points, points.end());
+                    segments.erase(segments.begin() + n_segments, segments.end());
+                    throw;
+                }
+            }
             void checkFinite(Vector p) {
                 if (!std::isfinite(p.x) || !std::isfinite(p.y)) {
                     nexit("Error: the coordinates of a drawing must be finite");
@@ -116,10 +129,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawRectangle(Vector p1, Vector p2) {
-        drawSegment(p1, Vector(p2.x, p1.y));
-        drawSegment(Vector(p2.x, p1.y), p2);
-        drawSegment(p2, Vector(p1.x, p2.y));
-        drawSegment(Vector(p1.x, p2.y), p1);
+        drawShape([&] {
+            drawSegment(p1, Vector(p2.x, p1.y));
+            drawSegment(Vector(p2.x, p1.y), p2);
+            drawSegment(p2, Vector(p1.x, p2.y));
+            drawSegment(Vector(p1.x, p2.y), p1);
+        });
         polygons.push_back(Polygon({p1, Vector(p2.x, p1.y), p2, Vector(p1.x, p2.y)}));
     }
 
@@ -135,14 +150,16 @@ namespace nikfemm {
         Vector p1 = start;
         Vector p2;
         std::vector<Vector> my_points;
-        for (uint32_t i = 0; i < n_segments; i++) {
-            double angle = (i + 1) * angle_step;
-            // the last point is the first one: a rounding error must not leave the circle open
-            p2 = i + 1 == n_segments ? start : Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
-            drawSegment(p1, p2);
-            p1 = p2;
-            my_points.push_back(p2);
-        }
+        drawShape([&] {
+            for (uint32_t i = 0; i < n_segments; i++) {
+                double angle = (i + 1) * angle_step;
+                // the last point is the first one: a rounding error must not leave the circle open
+                p2 = i + 1 == n_segments ? start : Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
+                drawSegment(p1, p2);
+                p1 = p2;
+                my_points.push_back(p2);
+            }
+        });
         polygons.push_back(Polygon(my_points));
     }
 
@@ -156,10 +173,12 @@ namespace nikfemm {
         if (n_points == 0) {
             nexit("drawPolygon: a polygon needs points");
         }
-        for (uint32_t i = 0; i < n_points - 1; i++) {
-            drawSegment(points[i], points[i + 1]);
-        }
-        drawSegment(points[n_points - 1], points[0]);
+        drawShape([&] {
+            for (uint32_t i = 0; i < n_points - 1; i++) {
+                drawSegment(points[i], points[i + 1]);
+            }
+            drawSegment(points[n_points - 1], points[0]);
+        });
         polygons.push_back(Polygon(points, n_points));
     }
 
-- 
2.43.0


From f95ed85caace87008bb60b28cc4d8c5d3a9fed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 76/81] fix: coordinates the mesher overflows with are refused

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index c6b472e..a99cb02 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -110,8 +110,9 @@ namespace nikfemm {
                 }
             }
             void checkFinite(Vector p) {
-                if (!std::isfinite(p.x) || !std::isfinite(p.y)) {
-                    nexit("Error: the coordinates of a drawing must be finite");
+                // the mesher multiplies four coordinates
+                if (!(std::abs(p.x) < 1e70) || !(std::abs(p.y) < 1e70)) {
+                    nexit("Error: the coordinates of a drawing must be finite and less than 1e70");
                 }
             }
     };
-- 
2.43.0


From e1372beb8dd348813ccd4abcb0e57f10247ba210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:16 +0000
Subject: [PATCH 77/81] fix: a voltage at no node is refused

---
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 3 +--
 lib/nikfemm/src/current_density/simulation.cpp            | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 5650aca..1de26b7 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -272,8 +272,7 @@ namespace nikfemm {
         }
 
         if (closest_node == -1) {
-            nlogerror("could not find closest node");
-            return;
+            nexit("could not find closest node");
         }
 
         closest_node += offsets[layer_id]; // add the offset
diff --git a/lib/nikfemm/src/current_density/simulation.cpp b/lib/nikfemm/src/current_density/simulation.cpp
index 88f9367..7c5482e 100644
--- a/lib/nikfemm/src/current_density/simulation.cpp
+++ b/lib/nikfemm/src/current_density/simulation.cpp
@@ -45,8 +45,7 @@ namespace nikfemm {
         }
 
         if (closest_node == -1) {
-            nlogerror("could not find closest node");
-            return;
+            nexit("could not find closest node");
         }
 
         // set the voltage
-- 
2.43.0


From 2a4795961a0f25373c13c141a084b62c2336e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:17 +0000
Subject: [PATCH 78/81] fix: areas far from the origin lose their digits

---
 lib/nikfemm/src/geometry/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/vector.hpp b/lib/nikfemm/src/geometry/vector.hpp
index 36abd6f..8c10755 100644
--- a/lib/nikfemm/src/geometry/vector.hpp
+++ b/lib/nikfemm/src/geometry/vector.hpp
@@ -123,7 +123,8 @@ namespace nikfemm {
             }
 
             static inline double doubleOrientedArea(const Vector p1, const Vector p2, const Vector p3) {
-                return p1.x * p2.y - p1.x * p3.y - p2.x * p1.y + p2.x * p3.y + p3.x * p1.y - p3.x * p2.y;
+                // from the sides, not from the coordinates: the area does not lose its digits far from the origin
+                return (p2.x - p1.x) * (p3.y - p1.y) - (p3.x - p1.x) * (p2.y - p1.y);
             }
 
             static inline double orientedArea(const Vector p1, const Vector p2, const Vector p3) {
-- 
2.43.0


From 765a7ec651ffea60410c357e7d46a94c519e1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 79/81] fix: a polygon that leaves another one between its
 corners is not inside it

---
 lib/nikfemm/src/geometry/polygon.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/nikfemm/src/geometry/polygon.cpp b/lib/nikfemm/src/geometry/polygon.cpp
index 2a7e08e..128f000 100644
--- a/lib/nikfemm/src/geometry/polygon.cpp
+++ b/lib/nikfemm/src/geometry/polygon.cpp
@@ -98,6 +98,28 @@ namespace nikfemm {
             }
         }
 
+        // between its vertices the other polygon must stay inside too
+        for (size_t i = 0; i < p.points.size(); i++) {
+            Vector A = p.points[i];
+            Vector B = p.points[(i + 1) % p.points.size()];
+            bool common_edge = false;
+            for (size_t j = 0; j < points.size() && !common_edge; j++) {
+                Vector C = points[j];
+                Vector D = points[(j + 1) % points.size()];
+                common_edge = (A.x == C.x && A.y == C.y && B.x == D.x && B.y == D.y) || (A.x == D.x && A.y == D.y && B.x == C.x && B.y == C.y);
+                double c = Vector::doubleOrientedArea(A, B, C);
+                double d = Vector::doubleOrientedArea(A, B, D);
+                double a = Vector::doubleOrientedArea(C, D, A);
+                double b = Vector::doubleOrientedArea(C, D, B);
+                if (!common_edge && ((c > 0 && d < 0) || (c < 0 && d > 0)) && ((a > 0 && b < 0) || (a < 0 && b > 0))) {
+                    return false;
+                }
+            }
+            if (!common_edge && !contains(Vector::midPoint(A, B), true, 1e-12 * Vector::distance(A, B))) {
+                return false;
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From befe44cde7be15e200030c396932f38df12573ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:29 +0000
Subject: [PATCH 80/81] fix: refining next to a coordinate of zero went on
 until the mesher wrote out of bounds

---
 lib/nikfemm/src/triangle/triangle.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 6fee096..feea3f8 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -7041,6 +7041,16 @@ vertex enqdest;
 
 {
   struct badtriang *newbad;
+  REAL extent;
+
+  /* Next to zero the coordinates resolve ever smaller triangles: stop long */
+  /*   before the square of the shortest edge underflows.                   */
+  extent = 1e-30 * ((m->xmax - m->xmin) + (m->ymax - m->ymin));
+  if (minedge <= extent * extent) {
+    printf("Error:  Ran out of precision at (%.12g, %.12g).\n",
+           enqorg[0], enqorg[1]);
+    triexit(1);
+  }
 
   /* Allocate space for the bad triangle. */
   newbad = (struct badtriang *) poolalloc(&m->badtriangles);
-- 
2.43.0


From 1114d008faedc91ce247053ac995387782e7a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:29 +0000
Subject: [PATCH 81/81] fix: refining points were put on top of a corner where
 boundaries touch

---
 lib/nikfemm/src/drawing/drawing.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index a99cb02..adb6f5c 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -327,6 +327,13 @@ namespace nikfemm {
         // find shortest segment first
         double epsilon = getCurrentEpsilon();
 
+        // where boundaries touch, or nearly do, the points around a corner would collapse into the corner
+        for (auto& p : points) {
+            if (epsilon / 100 <= 1e-14 * std::max(std::abs(p.x), std::abs(p.y))) {
+                return;
+            }
+        }
+
         uint32_t n_points = points.size();
 
         // for each corner, add as many points as possible and make sure they are at least 20 degrees apart
-- 
2.43.0

