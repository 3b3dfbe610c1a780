From 1fa958517485ed62d2879deddbac9b0a66ecf20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 01/18] fix: bound the price reductions of the assignment
 solver

Three rows competing for two columns lower the column prices by the
difference of their preferences in each step, so that the run time of the
augmenting row reduction is proportional to the cost range divided by
that difference (a 3x3 matrix with entries 0, 9 and 1e-12 takes days).
Rows that exceed the bound are left to the augmentation phase.
---
 include/rlapjv.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..9edae73 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -305,6 +305,7 @@ cost rlap(int dim0, int dim1,
         idx k = 0;
         idx prevnumfree = numfree;
         numfree = 0; // start list of rows still free after augmenting row reduction.
+        idx lowerings = 0; // price reductions made in this pass.
         while (k < prevnumfree)
         {
             idx i = free[k++];
@@ -316,14 +317,18 @@ cost rlap(int dim0, int dim1,
 
             idx i0 = colsol[j1];
             cost vj1_new = v[j1] - (usubmin - umin);
-            bool vj1_lowers = vj1_new < v[j1]; // the trick to eliminate the epsilon bug
+            bool vj1_less = vj1_new < v[j1]; // the trick to eliminate the epsilon bug
+            // rows competing for too few columns lower the prices by arbitrarily small amounts;
+            // leave such rows to the augmentation phase.
+            bool vj1_lowers = vj1_less && lowerings < 2 * dim0;
             if (vj1_lowers)
             {
+                ++lowerings;
                 // change the reduction of the minimum column to increase the minimum
                 // reduced cost in the row to the subminimum.
                 v[j1] = vj1_new;
             }
-            else if (i0 >= 0)
+            else if (i0 >= 0 && !vj1_less)
             { // minimum and subminimum equal.
                 // minimum column j1 is assigned.
                 // swap columns j1 and j2, as j2 may be unassigned.
-- 
2.43.0


From e6a394d1413da74330ff3ddfaa7a12dad1fe41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 02/18] fix: axes of the box of a Gaussian

r1 belongs to the first eigenvector, so the angle has to be taken from it.
The box of diag(1, 100) was wide in x and narrow in y.
---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..a065fea 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 04db7a1119488976c677008ee9c0528d1ef49013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 03/18] fix: intersection of oriented boxes

---
 include/bbox.hpp | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index a065fea..ecc080d 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -171,42 +171,22 @@ struct BBox {
     }
 
     bool intersects(const BBox& other) const {
+        return !separates(other) && !other.separates(*this);
+    }
+
+    // Separating axis test: is there an edge of this box
+    // such that the normal of the edge keeps the boxes apart?
+    bool separates(const BBox& other) const {
         for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
-                return true;
-            }
-        }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
+            Eigen::Vector2d edge = corners.col((i + 1) % corners.cols()) - corners.col(i);
+            Eigen::RowVector2d normal(-edge.y(), edge.x());
+            auto a = (normal * corners).eval();
+            auto b = (normal * other.corners).eval();
+            if (a.maxCoeff() < b.minCoeff() || b.maxCoeff() < a.minCoeff()) {
                 return true;
             }
         }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        return false;
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From 36846dcc315040e004aefcb72cabe53deecee4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 04/18] fix: collapse every redundant root of the spatial index

---
 include/RTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RTree.h b/include/RTree.h
index 92f3001..9a031e0 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -1436,7 +1436,7 @@ bool RTREE_QUAL::RemoveRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root)
     }
 
     // Check for redundant root (not leaf, 1 child) and eliminate
-    if((*a_root)->m_count == 1 && (*a_root)->IsInternalNode())
+    while((*a_root)->m_count == 1 && (*a_root)->IsInternalNode())
     {
       tempNode = (*a_root)->m_branch[0].m_child;
 
-- 
2.43.0


From 019a87737e46c42bbfffd2a51ec6b69c89bf150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 05/18] fix: fill every sample of a mixture

---
 include/gm.hpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..1f4582f 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -204,26 +204,31 @@ struct GM {
         }
     }
 
-    template<typename RES>
-    void sample(RES& res) const {
-        unsigned col = 0;
+    // Share the columns of a sample matrix between the components,
+    // in proportion to their weights, such that every column is used.
+    template<typename RES, typename FN>
+    void allot_samples(RES& res, FN&& sample_component) const {
+        double wsum = 0;
+        Eigen::Index col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
-            c[i].sample(tmp);
-            col += csamples;
+            wsum += c[i].w;
+            Eigen::Index end = (i + 1 < c.size()
+                ? std::min<Eigen::Index>(std::floor(wsum * res.cols() + 0.5), res.cols())
+                : res.cols());
+            auto tmp = res.middleCols(col, end - col);
+            sample_component(c[i], tmp);
+            col = end;
         }
     }
 
+    template<typename RES>
+    void sample(RES& res) const {
+        allot_samples(res, [](const Gaussian& g, auto& cols) { g.sample(cols); });
+    }
+
     template<typename RES>
     void sample_pos(RES& res) const {
-        unsigned col = 0;
-        for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
-            c[i].sample_pos(tmp);
-            col += csamples;
-        }
+        allot_samples(res, [](const Gaussian& g, auto& cols) { g.sample_pos(cols); });
     }
 
     State mean() const {
-- 
2.43.0


From 6940b09cebd9935fd69a0c97e6f8f78b739a32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 06/18] fix: resample a particle cloud in order

The search position in the cumulated weights was shared between the
threads of the loop, and rounding could take it past the last particle.
---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..c4928a7 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -150,10 +150,10 @@ struct PF {
         unsigned j = 0;
 
         States x2; x2.resize(STATES, N);
-        PARFOR
+        // Each particle continues where the previous one stopped
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
-            while (cdf[j] < u) { ++j; }
+            while (j + 1 < N && cdf[j] < u) { ++j; }
             x2.col(i) = x.col(j);
         }
         x = x2;
-- 
2.43.0


From 643a7a7d09df5d2e71d54239905ffd19f0c28de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 07/18] fix: weigh the particles of a missed target by not
 being detected

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index c4928a7..55e9113 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -106,10 +106,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0


From b61537c618aa17682ace20dc105a4c7094e5f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 08/18] fix: mark a particle cloud with weight as valid

Nothing ever did, so no cloud was resampled or got a bounding box.
---
 include/pf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pf.hpp b/include/pf.hpp
index 55e9113..4c1751b 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -78,6 +78,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        normalize();
         transform_to_local(pos());
         transform_to_global();
     }
@@ -116,6 +117,7 @@ struct PF {
         eta = w.sum();
         if (eta > 1e-8) {
             w /= eta;
+            valid = true;
         } else {
             invalidate();
         }
@@ -259,6 +261,7 @@ struct PF {
         }
         bbox = bbox.llbbox(origin);
         aabbox = bbox.aabbox();
+        _llaabbox = aabbox;
     }
 };
 
-- 
2.43.0


From 5322a4ff536a5df29abf3aeaba84974b556bd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 09/18] fix: an empty particle cloud is void

Its particles, weights and parameters were left uninitialised.
---
 include/pf.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 4c1751b..9769791 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -55,17 +55,14 @@ struct PF {
     cf::LL origin;
 
     PF()
-    : w(1, N),
-      x(S, N) {
-        std::iota(std::begin(permutation), std::end(permutation), 0);
-        transform_to_local(pos());
-        transform_to_global();
-    }
+    : PF(nullptr)
+    {}
 
     explicit PF(Params* params_)
     : params(params_),
-      w(1, N),
-      x(S, N) {
+      eta(0),
+      w(Weights::Zero(1, N)),
+      x(States::Zero(S, N)) {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         transform_to_local(pos());
         transform_to_global();
-- 
2.43.0


From 11272fd2b87d775df4d7d06894f337a51ab8d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 10/18] fix: weigh impossible and improbable hypotheses
 correctly

Forbidden associations had a finite cost, and a group whose only
hypotheses were forbidden or too costly for exp() got undefined
existence and birth probabilities.
---
 include/cluster.hpp | 8 ++++++--
 include/target.hpp  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..f975f45 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -64,7 +64,7 @@ struct Cluster_ {
             // There are targets to match with
             // Create cost matrix
             Eigen::MatrixXd C(M, N + 2 * M);
-            C.setConstant(inf);
+            C.setConstant(lap::inf);
             for (unsigned i = 0; i < M; ++i) {
                 targets[i]->match(reports,
                                   sensor,
@@ -83,13 +83,17 @@ struct Cluster_ {
             Murty murty(C);
             Assignment res;
             double cost;
+            double best = 0;
             double w;
             double w_sum = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                // Only the ratios matter: relative to the best hypothesis, the
+                // weights cannot all vanish
+                if (n == 0) { best = cost; }
+                w = std::exp(best - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..ebc7fd5 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -2,6 +2,7 @@
 #pragma once
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "bbox.hpp"
 #include "cf.hpp"
@@ -184,7 +185,7 @@ struct Target_ {
         if (r < 1) {
             return -std::log(1 - r);
         } else {
-            return inf;
+            return std::numeric_limits<double>::infinity();
         }
     }
 
-- 
2.43.0


From 965af010414e84b331a236eed0ec5005dca8e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 11/18] fix: decide feasibility of an assignment by matching

The condition was checked for every subset of the rows, so that the run
time doubled with every row (one draw for 31 rows takes hours), and from
32 rows on the subset counter overflowed and the solver never returned.
---
 include/rlapjv.h | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 9edae73..2d0c1c8 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <limits>
 #include <memory>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -519,7 +520,19 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
+// Find a column for the row, moving the rows that own columns aside if need be.
+template<typename Allowed>
+bool match_row(const Allowed& allowed, const int row, std::vector<int>& owner, std::vector<bool>& visited) {
+    for (int col = 0; col < allowed.cols(); ++col) {
+        if (!allowed(row, col) || visited[col]) { continue; }
+        visited[col] = true;
+        if (owner[col] < 0 || match_row(allowed, owner[col], owner, visited)) {
+            owner[col] = row;
+            return true;
+        }
+    }
+    return false;
+}
 
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
@@ -530,30 +543,17 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
 
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
-        for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
-                }
-            }
-nextcol:;
+    // A complete assignment exists if every row can be matched with a column of its own.
+    std::vector<int> owner(cols, -1);
+    for (int row = 0; row < rows; ++row) {
+        std::vector<bool> visited(cols, false);
+        if (!match_row(notinf, row, owner, visited)) {
+            //std::cout << "NOK matrix: " << std::endl;
+            //std::cout << C << std::endl;
+            return false;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
-        return false;
-nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From 6cf9d879c5cd3451b8718c0faa9fa102ae02d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 12/18] fix: keep the existence of a copied target summary

The copy referred to the weight of the original, which is gone when a list
of summaries grows.
---
 include/target.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index ebc7fd5..ff8024c 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -31,6 +31,9 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    TargetSummary_(const Self& t)
+    : Parent(t), r(this->w), id(t.id), cid(t.cid) {}
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From 8445e0e365c277703df1e1ce370eb4c24ae5ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 13/18] fix: leave targets as they are when scores and density
 maps are computed

Moving a target to another origin and back recomputes its area around that
origin. The spatial index still holds the old area, so that the target can
no longer be removed from it and the index is left with a dangling entry
when the target is erased.
---
 include/lmb.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..f722170 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,10 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
+                const PDF pdf(t->pdf);
                 t->transform_to_local(origin);
                 t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                t->pdf = pdf;  // The way back would change the indexed area
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +266,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf(targettree.targets[i]->pdf);
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;  // The way back would change the indexed area
                 }
                 C = C.cwiseMin(c);
 
@@ -316,9 +318,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf(targettree.targets[i]->pdf);
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;  // The way back would change the indexed area
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
-- 
2.43.0


From 0037af638597c4c6351e5be3ae5ef9be0d39c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 14/18] fix: solve assignment problems in any storage order

The solver reads its matrix row by row. Given a matrix stored by columns, as
the scores of the tracker do, it solved the transposed problem and returned
an assignment that need not be optimal.
---
 include/rlapjv.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 2d0c1c8..49d080d 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -534,8 +534,9 @@ bool match_row(const Allowed& allowed, const int row, std::vector<int>& owner, s
     return false;
 }
 
-template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
-bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
+template<typename Costs, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
+bool lap(const Costs& costs, Assignment& rowsol, RowDual& u, ColDual& v) {
+    const CostMatrix& C = costs;  // The solver reads the costs row by row, in whatever order they are stored
     int rows = C.rows();
     int cols = C.cols();
     Eigen::VectorXi colsol(cols);
-- 
2.43.0


From 4ec24a8b312138fe4f5b47cb225083fb92481a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 15/18] fix: match by the powers of the distances for OSPA

The matching that minimises the sum of the distances need not minimise the
sum of their powers.
---
 include/lmb.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index f722170..a9cd986 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -271,18 +271,10 @@ class SILMB {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
                     targettree.targets[i]->pdf = pdf;  // The way back would change the indexed area
                 }
-                C = C.cwiseMin(c);
-
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
+                // The optimal matching minimises the sum of the powers
+                C = C.cwiseMin(c).array().pow(p).matrix().eval();
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
-                score = std::pow(cost / n, 1.0 / p);
+                score = std::pow(lap::cost(C, res) / n, 1.0 / p);
             }
         }
         return score;
-- 
2.43.0


From e6ec43d7ea9429304f20bddcc14a1d34335c1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 16/18] fix: expose the hypothesis counts of the groups

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From 6ff92958f56d270e21faf767d6239593e09588a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 17/18] fix: restore the limits of a pickled box as they were

---
 lmb/lmb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index bd2125f..ac7672b 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -100,8 +100,10 @@ PYBIND11_MODULE(lmb, m) {
                 }
 
                 /* Create a new C++ instance */
-                return AABBox(t[0].cast<double>(), t[1].cast<double>(),
-                              t[2].cast<double>(), t[3].cast<double>());
+                AABBox aabbox;
+                aabbox.min = {t[0].cast<double>(), t[1].cast<double>()};
+                aabbox.max = {t[2].cast<double>(), t[3].cast<double>()};
+                return aabbox;
             }
         ));
     py::class_<Tracker::Gaussian>(m, "Gaussian")
-- 
2.43.0


From dd6d9c85bc8f97128d626bf0401fcd2bdd76abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 18/18] fix: give each thread a random generator of its own

---
 include/statistics.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..62a3182 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -5,10 +5,10 @@
 #include "statistics.hpp"
 
 namespace lmb {
-    std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // Draws are made in parallel loops: each thread has a generator of its own
+    static thread_local std::mt19937 gen{std::random_device{}()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0

