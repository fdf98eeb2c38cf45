From 026f530b95a9bc74eccd6acb738c0c4b6eaa299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 01/10] fix: keep the first interior row and column in the
 relaxation area

RelaxTerrain clamped the lower bounds of relax_area_ at 2 whereas the
interior of the grid starts at 1 (see body_area_ and the initial value of
relax_area_). Unstable soil located in the first interior row or column was
therefore never relaxed, while equilibrium_ was reported as true.
---
 soil_simulator/relax.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index cb6f5a5..0db22ed 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -127,11 +127,11 @@ void soil_simulator::RelaxTerrain(
 
     // Updating relax_area
     sim_out->relax_area_[0][0] = std::max(
-        relax_min_x - sim_param.cell_buffer_, 2);
+        relax_min_x - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[0][1] = std::min(
         relax_max_x + sim_param.cell_buffer_, 2 * grid.half_length_x_);
     sim_out->relax_area_[1][0] = std::max(
-        relax_min_y - sim_param.cell_buffer_, 2);
+        relax_min_y - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[1][1] = std::min(
         relax_max_y + sim_param.cell_buffer_, 2 * grid.half_length_y_);
 }
-- 
2.43.0


From 68d1a43dbf85cd53271ffadb0b185a0128936a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 02/10] fix: align the grid position tables with the cell
 indices

Positions are converted to indices assuming that the cell with index
half_length_ is located at 0. However, vect_x_, vect_y_ and vect_z_ started
from minus the grid size, so that they were shifted when the grid size is not
a multiple of the cell size.
---
 soil_simulator/types.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index 25c6ed3..d1b5e18 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -60,15 +60,15 @@ soil_simulator::Grid::Grid(
     vect_y_.resize(2 * half_length_y_ + 1);
     vect_z_.resize(2 * half_length_z_ + 1);
 
-    vect_x_[0] = -grid_size_x;
+    vect_x_[0] = -half_length_x_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_x_.size() ; ii++)
         vect_x_[ii] = vect_x_[ii-1] + cell_size_xy;
 
-    vect_y_[0] = -grid_size_y;
+    vect_y_[0] = -half_length_y_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_y_.size() ; ii++)
         vect_y_[ii] = vect_y_[ii-1] + cell_size_xy;
 
-    vect_z_[0] = -grid_size_z + cell_size_z;
+    vect_z_[0] = (1 - half_length_z_) * cell_size_z;
     for (auto ii = 1 ; ii < vect_z_.size() ; ii++)
         vect_z_[ii] = vect_z_[ii-1] + cell_size_z;
 }
-- 
2.43.0


From 5f321c272a1eed81dce937600797980766c2f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 03/10] fix: do not let body soil avalanche under a layer that
 rests on terrain

CheckUnstableBodyCell sent soil to the terrain whenever the layer of the
neighbouring cell was above the layer carrying the soil, even without any
space between the terrain and that layer. Nothing was moved then, but the
state was never considered at equilibrium and the remaining relaxation
rounds were wasted. The soil now has to pass over the layer, as is already
done when two layers are present.
---
 soil_simulator/relax.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 0db22ed..476a467 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -463,7 +463,10 @@ int soil_simulator::CheckUnstableBodyCell(
         status = 20;
 
         if (
-            sim_out->body_[ind+1][ii][jj] + tol < sim_out->body_[2][ii_c][jj_c]
+            (sim_out->body_[ind+1][ii][jj] + tol <
+            sim_out->body_[2][ii_c][jj_c]) &&
+            (sim_out->terrain_[ii_c][jj_c] + tol <
+            sim_out->body_[2][ii_c][jj_c])
         ) {
             // Soil should avalanche to the terrain
             column_top = sim_out->terrain_[ii_c][jj_c];
@@ -488,7 +491,10 @@ int soil_simulator::CheckUnstableBodyCell(
         status = 10;
 
         if (
-            sim_out->body_[ind+1][ii][jj] + tol < sim_out->body_[0][ii_c][jj_c]
+            (sim_out->body_[ind+1][ii][jj] + tol <
+            sim_out->body_[0][ii_c][jj_c]) &&
+            (sim_out->terrain_[ii_c][jj_c] + tol <
+            sim_out->body_[0][ii_c][jj_c])
         ) {
             // Soil should avalanche to the terrain
             column_top = sim_out->terrain_[ii_c][jj_c];
-- 
2.43.0


From bcc99413fe76c551cabe7d5373fdfd7c55878333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 04/10] fix: stop relaxing a soil parcel once it is used up

RelaxBodySoil kept probing the remaining directions after all the soil of a
parcel had avalanched, comparing the neighbours with the emptied column. This
created empty parcels and zero-thickness soil on neighbouring layers.
---
 soil_simulator/relax.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 476a467..f4a5523 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -218,6 +218,11 @@ void soil_simulator::RelaxBodySoil(
             RelaxUnstableBodyCell(
                 sim_out, status, new_body_soil_pos, dh_max, nn, ii, jj, ind,
                 ii_c, jj_c, grid, body, tol);
+
+            if (sim_out->body_soil_pos_[nn].h_soil < tol) {
+                // No soil left to be moved
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 66c611bf4da9b12d991420dba35fff68e9bec9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 05/10] fix: keep the wall corners that lie within the
 tolerance of an edge

A cell corner lying inside a wall but closer to its edge than the tolerance
was discarded although the edge itself does not cross the cells around it, so
these cells missed the wall over several cell heights.
---
 soil_simulator/body_pos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 11aefc3..db61c78 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -486,8 +486,8 @@ soil_simulator::DecomposeVectorRectangle(
             c_ad[ii_s][jj_s] = (
                 -c_ad_x * (ii - a_ind[0]) + c_ad_y * (jj - a_ind[1]));
 
-            if ((c_ab[ii_s][jj_s] > tol) && (c_ab[ii_s][jj_s] < 1 - tol) &&
-                (c_ad[ii_s][jj_s] > tol) && (c_ad[ii_s][jj_s] < 1 - tol)) {
+            if ((c_ab[ii_s][jj_s] > 0) && (c_ab[ii_s][jj_s] < 1) &&
+                (c_ad[ii_s][jj_s] > 0) && (c_ad[ii_s][jj_s] < 1)) {
                 // Cell is inside the rectangle area
                 in_rectangle[ii_s][jj_s] = true;
                 n_cell += 4;
@@ -711,8 +711,8 @@ soil_simulator::DecomposeVectorTriangle(
             c_ac[ii_s][jj_s] = (
                 -c_ac_x * (ii - a_ind[0]) + c_ac_y * (jj - a_ind[1]));
 
-            if ((c_ab[ii_s][jj_s] > tol) && (c_ac[ii_s][jj_s] > tol) &&
-                (c_ab[ii_s][jj_s] + c_ac[ii_s][jj_s] < 1.0 - tol)) {
+            if ((c_ab[ii_s][jj_s] > 0) && (c_ac[ii_s][jj_s] > 0) &&
+                (c_ab[ii_s][jj_s] + c_ac[ii_s][jj_s] < 1.0)) {
                 // Cell is inside the triangle area
                 in_triangle[ii_s][jj_s] = true;
                 n_cell += 4;
-- 
2.43.0


From 0d3a5ec622be606f9e9c4471aafd5c3f0e76a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 06/10] fix: trace a wall edge that starts on a cell boundary

Starting exactly on the boundary of the cell it leaves, the edge was kept in
that cell for one more cell and stayed one cell behind until its end.
---
 soil_simulator/body_pos.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index db61c78..b00fbaf 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -776,6 +776,16 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
         t_max_z = z1 - std::floor(z1);
     }
 
+    // Avoiding issue when line starts at cell boundary
+    // The boundary is crossed immediately if the line leaves the starting cell,
+    // while a full cell remains to be crossed otherwise
+    if (t_max_x == 0.0 && dx == 0.0)
+        t_max_x = 1;
+    if (t_max_y == 0.0 && dy == 0.0)
+        t_max_y = 1;
+    if (t_max_z == 0.0 && step_z == -1)
+        t_max_z = 1;
+
     // Avoiding issue when line is 2D
     if (dx == 0.0)
         dx = 1e-10;
@@ -784,14 +794,6 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
     if (dz == 0.0)
         dz = 1e-10;
 
-    // Avoiding issue when at cell boundary
-    if (t_max_x == 0.0)
-        t_max_x = 1;
-    if (t_max_y == 0.0)
-        t_max_y = 1;
-    if (t_max_z == 0.0)
-        t_max_z = 1;
-
     // Determining how long on the line to cross the cell
     float t_delta_x = std::sqrt(1.0 + (dy * dy + dz * dz) / (dx * dx));
     float t_delta_y = std::sqrt(1.0 + (dx * dx + dz * dz) / (dy * dy));
-- 
2.43.0


From 943426cb2afce6fd743d98534d1c0fcfa80d774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 07/10] fix: follow a wall edge with whole cell indices

Adding steps to the real position could round it to the next cell when the
edge starts next to a cell boundary, shifting the rest of the edge by a cell.
---
 soil_simulator/body_pos.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index b00fbaf..c753b05 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -807,37 +807,36 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
     // Calculating norm of the vector AB
     float ab_norm = std::sqrt(dx * dx + dy * dy + dz * dz);
 
+    // Determining the indices of the starting cell
+    int ii = static_cast<int>(round(x1));
+    int jj = static_cast<int>(round(y1));
+    int kk = static_cast<int>(std::ceil(z1));
+
     // Creating line_pos and adding the starting point
     std::vector<std::vector<int>> line_pos;
     line_pos.resize(1, std::vector<int>(3, 0));
-    line_pos[0] = std::vector<int> {
-        static_cast<int>(round(x1)),
-        static_cast<int>(round(y1)),
-        static_cast<int>(std::ceil(z1))};
+    line_pos[0] = std::vector<int> {ii, jj, kk};
 
     // Iterating along the line until reaching the end
     while ((t_max_x < ab_norm) || (t_max_y < ab_norm) || (t_max_z < ab_norm)) {
         if (t_max_x < t_max_y) {
             if (t_max_x < t_max_z) {
-                x1 = x1 + step_x;
+                ii = ii + step_x;
                 t_max_x += t_delta_x;
             } else {
-                z1 = z1 + step_z;
+                kk = kk + step_z;
                 t_max_z += t_delta_z;
             }
         } else {
             if (t_max_y < t_max_z) {
-                y1 = y1 + step_y;
+                jj = jj + step_y;
                 t_max_y += t_delta_y;
             } else {
-                z1 = z1 + step_z;
+                kk = kk + step_z;
                 t_max_z += t_delta_z;
             }
         }
-        line_pos.push_back(std::vector<int> {
-            static_cast<int>(round(x1)),
-            static_cast<int>(round(y1)),
-            static_cast<int>(std::ceil(z1))});
+        line_pos.push_back(std::vector<int> {ii, jj, kk});
     }
     return line_pos;
 }
-- 
2.43.0


From f2072a68979e7387b0a2f1a6a20fe804705c51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 08/10] fix: soil farther than the number of vertical cells
 from the body falls to the terrain

UpdateBodySoil compares the distance to the body, a length, with twice the
number of cells of the grid in the vertical direction. With cells higher than
one unit of length the body is missed although it is in one of the nine cells,
and the soil is put on the terrain.
---
 soil_simulator/body_soil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..2042e19 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -8,6 +8,7 @@ Copyright, 2023, Vilella Kenny.
 #include <algorithm>
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "soil_simulator/body_soil.hpp"
 #include "soil_simulator/types.hpp"
@@ -117,7 +118,7 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_s = std::numeric_limits<float>::max();
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +189,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != std::numeric_limits<float>::max()) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0


From 784648481b93d6ad75c54cb5ff33857a485cbaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 09/10] fix: reject bodies whose three points are aligned

The width of a body extends along the normal to the plane of its joint, base
and teeth. For aligned points this normal is not a number, and the first step
reads far outside of the grid.
---
 soil_simulator/types.cpp | 17 +++++++++++++++++
 soil_simulator/types.hpp |  1 +
 2 files changed, 18 insertions(+)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index d1b5e18..ea97664 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -6,6 +6,7 @@ Checks are conducted to verify the integrity and validity of the data.
 Copyright, 2023, Vilella Kenny.
 */
 #include <math.h>
+#include <cmath>
 #include <vector>
 #include <stdexcept>
 #include <iostream>
@@ -102,6 +103,22 @@ soil_simulator::Body::Body(
         throw std::invalid_argument("b_pos_init should not be equal to"
             " t_pos_init");
 
+    // Without a plane through the three points, the direction of the width is
+    // not defined
+    std::vector<double> jb(3);
+    std::vector<double> jt(3);
+    for (auto ii = 0 ; ii < 3 ; ii++) {
+        jb[ii] = static_cast<double>(b_pos_init[ii]) - j_pos_init[ii];
+        jt[ii] = static_cast<double>(t_pos_init[ii]) - j_pos_init[ii];
+    }
+    double cross_norm = std::hypot(
+        jb[1] * jt[2] - jb[2] * jt[1], jb[2] * jt[0] - jb[0] * jt[2],
+        jb[0] * jt[1] - jb[1] * jt[0]);
+    if (cross_norm <= 1e-5 *
+        std::hypot(jb[0], jb[1], jb[2]) * std::hypot(jt[0], jt[1], jt[2]))
+        throw std::invalid_argument("j_pos_init, b_pos_init and t_pos_init"
+            " should not be aligned");
+
     if (width <= 0.0)
         throw std::invalid_argument("width should be greater than zero");
 
diff --git a/soil_simulator/types.hpp b/soil_simulator/types.hpp
index 67fe851..e315073 100644
--- a/soil_simulator/types.hpp
+++ b/soil_simulator/types.hpp
@@ -177,6 +177,7 @@ class Body {
      /// - All provided Cartesian coordinates should be a vector of size 3.
      /// - The body joint, base and teeth should have strictly different
      ///   location.
+     /// - The body joint, base and teeth should not be aligned.
      /// - The body width should be greater than zero.
      ///
      /// \param o_pos_init: Cartesian coordinates of the body origin in its
-- 
2.43.0


From 7e1805b8c16a1d5cf79b64ad878efa931a4773f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:01 +0000
Subject: [PATCH 10/10] fix: compute grid positions from the cell index

---
 soil_simulator/types.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index ea97664..6dc0249 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -61,13 +61,11 @@ soil_simulator::Grid::Grid(
     vect_y_.resize(2 * half_length_y_ + 1);
     vect_z_.resize(2 * half_length_z_ + 1);
 
-    vect_x_[0] = -half_length_x_ * cell_size_xy;
-    for (auto ii = 1 ; ii < vect_x_.size() ; ii++)
-        vect_x_[ii] = vect_x_[ii-1] + cell_size_xy;
+    for (auto ii = 0 ; ii < vect_x_.size() ; ii++)
+        vect_x_[ii] = (static_cast<int>(ii) - half_length_x_) * cell_size_xy;
 
-    vect_y_[0] = -half_length_y_ * cell_size_xy;
-    for (auto ii = 1 ; ii < vect_y_.size() ; ii++)
-        vect_y_[ii] = vect_y_[ii-1] + cell_size_xy;
+    for (auto ii = 0 ; ii < vect_y_.size() ; ii++)
+        vect_y_[ii] = (static_cast<int>(ii) - half_length_y_) * cell_size_xy;
 
     vect_z_[0] = (1 - half_length_z_) * cell_size_z;
     for (auto ii = 1 ; ii < vect_z_.size() ; ii++)
-- 
2.43.0

