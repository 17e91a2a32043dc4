From 178aaea3421e85ca7e65e11462ed294d1837008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/73] fix: to_work_index drops the simplex type, so it is no
 inverse of from_work_index

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index b92d54f..f77749c 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -474,7 +474,13 @@ inline std::ostream& operator<<(std::ostream& os, const simplicial_regular_mesh_
 inline size_t simplicial_regular_mesh_element::to_work_index(const simplicial_regular_mesh& m, const lattice& l, int scope) const
 {
   size_t idx = l.to_integer(corner);
-  return idx * m.ntypes(dim, scope);
+  size_t itype = type;
+  if (scope == ELEMENT_SCOPE_ORDINAL || scope == ELEMENT_SCOPE_INTERVAL) { // position among the types in the scope
+    const auto &types = scope == ELEMENT_SCOPE_ORDINAL ? 
+      m.unit_ordinal_simplex_types[dim] : m.unit_interval_simplex_types[dim];
+    itype = std::find(types.begin(), types.end(), type) - types.begin();
+  }
+  return idx * m.ntypes(dim, scope) + itype;
 }
 
 inline void simplicial_regular_mesh_element::from_work_index(const simplicial_regular_mesh& m, size_t i, const lattice& l, int scope)
-- 
2.43.0


From 6b3fbe0d500fce9293c6ea09ec96e76ade245927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/73] fix: element identifiers overflow 32-bit integers in
 meshes with more than 2^31 spacetime points

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index f77749c..fa6cc11 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -238,7 +238,7 @@ private:
   const int nd_;
   std::vector<int> lb_, ub_; // lower and upper bounds of each dimension
   std::vector<int> ntypes_, ntypes_ordinal_, ntypes_interval_; // number of types for k-simplex
-  std::vector<int> dimprod_;
+  std::vector<size_t> dimprod_; // the number of spacetime grid points may exceed 2^31
 
   struct lattice lattice_; 
 
@@ -948,7 +948,7 @@ inline void simplicial_regular_mesh::set_lb_ub(const std::vector<I>& l, const st
 
   for (int i = 0; i < nd()+1; i ++) {
     if (i == 0) dimprod_[i] = 1;
-    else dimprod_[i] = (u[i-1] - l[i-1] + 1) * dimprod_[i-1];
+    else dimprod_[i] = (size_t(u[i-1]) - size_t(l[i-1]) + 1) * dimprod_[i-1];
   }
 }
 
-- 
2.43.0


From d40348fac38db1e98df06d8fec75dc17660edb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 03/73] fix: partitioning a lattice_partitioner again
 accumulates the blocks of the previous partition

---
 include/ftk/mesh/lattice_partitioner.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ftk/mesh/lattice_partitioner.hh b/include/ftk/mesh/lattice_partitioner.hh
index 2de1027..8258a0b 100644
--- a/include/ftk/mesh/lattice_partitioner.hh
+++ b/include/ftk/mesh/lattice_partitioner.hh
@@ -99,6 +99,9 @@ inline void lattice_partitioner::partition(size_t np,
     const std::vector<size_t> &ghost_low, 
     const std::vector<size_t> &ghost_high)
 {
+  cores.clear(); // forget the previous partition, if any
+  extents.clear();
+
   if(np <= 0) {
     return ;
   }
-- 
2.43.0


From 790234c3d05e50414e2ae53bfda5d0eaa674507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 04/73] fix: the 2D regular critical point tracker symmetrizes
 Jacobians that are not symmetric, so foci and centers are never reported

---
 include/ftk/filters/critical_point_tracker_2d_regular.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index 48a8b2b..75fc90b 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -666,7 +666,8 @@ inline bool critical_point_tracker_2d_regular::check_simplex(
       double Js[3][2][2];
       simplex_jacobians(vertices, Js);
       lerp_s2m2x2(Js, mu, J);
-      ftk::make_symmetric2x2(J); // TODO
+      if (is_jacobian_field_symmetric)
+        ftk::make_symmetric2x2(J);
     } else {
       // TODO: jacobian is not given
     }
-- 
2.43.0


From c6c86863e4e66c053b3aa2aa1fe28f0f6cd5cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 05/73] fix: jacobian2D scales only one of the two differenced
 values and never stores off-diagonal entries of non-symmetric Jacobians

---
 include/ftk/ndarray/grad.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index dfe5235..06682db 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -67,18 +67,18 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = f(0, i+1, j) - f(0, i-1, j) * (DW-1),
-              H01 = f(0, i, j+1) - f(0, i, j-1) * (DH-1),
-              H10 = f(1, i+1, j) - f(1, i-1, j) * (DW-1), 
-              H11 = f(1, i, j+1) - f(1, i, j-1) * (DH-1);
+      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
+              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
+              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
+              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
       if (symmetric)
         grad(0, 1, i, j) = grad(1, 0, i, j) = (H01 + H10) * 0.5;
       else {
-        grad(0, 1) = H01;
-        grad(1, 0) = H10;
+        grad(0, 1, i, j) = H01;
+        grad(1, 0, i, j) = H10;
       }
     }
   }
-- 
2.43.0


From 6cf7429f32e043c64616f2f5a4333535b9bc8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 06/73] fix: resetting a critical point tracker keeps points,
 slices or the current timestep of the previous run

---
 include/ftk/filters/critical_point_tracker.hh          |  1 +
 .../filters/critical_point_tracker_2d_unstructured.hh  |  2 +-
 .../ftk/filters/critical_point_tracker_3d_regular.hh   | 10 ++++++++++
 .../filters/critical_point_tracker_3d_unstructured.hh  |  2 +-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 5142357..fda04bf 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -31,6 +31,7 @@ struct critical_point_tracker : public virtual tracker {
   void reset() {
     field_data_snapshots.clear();
     traced_critical_points.clear();
+    sliced_critical_points.clear();
   }
 
   void set_enable_robust_detection(bool b) { enable_robust_detection = b; }
diff --git a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
index 5096413..b5206f9 100644
--- a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
@@ -55,7 +55,7 @@ struct critical_point_tracker_2d_unstructured : public critical_point_tracker, p
 
   void initialize() {}
   void finalize();
-  void reset() {}
+  void reset() {current_timestep = 0; discrete_critical_points.clear(); critical_point_tracker::reset();}
 
   void update_timestep();
 
diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 8170dcd..96737c8 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -64,6 +64,7 @@ struct critical_point_tracker_3d_regular : public critical_point_tracker_regular
   // int cpdims() const { return 3; }
 
   void finalize();
+  void reset();
 
   void update_timestep();
   
@@ -122,6 +123,15 @@ inline void critical_point_tracker_3d_regular::finalize()
   update_traj_statistics();
 }
 
+inline void critical_point_tracker_3d_regular::reset()
+{
+  current_timestep = 0;
+
+  discrete_critical_points.clear();
+
+  critical_point_tracker::reset();
+}
+
 inline void critical_point_tracker_3d_regular::push_scalar_field_snapshot(const ndarray<double>& s)
 {
   field_data_snapshot_t snapshot;
diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index fd71cc2..1efcce4 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -47,7 +47,7 @@ struct critical_point_tracker_3d_unstructured :
 
   void initialize() {}
   void finalize();
-  void reset() {}
+  void reset() {current_timestep = 0; discrete_critical_points.clear(); critical_point_tracker::reset();}
 
   void update_timestep();
 
-- 
2.43.0


From b2c62de8646ed401536218e5e03864c62ef871d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 07/73] fix: the 3D regular critical point tracker reads a
 Jacobian field that is not there

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 96737c8..faa1052 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -494,9 +494,12 @@ inline bool critical_point_tracker_3d_regular::check_simplex(
     cp.scalar[0] = lerp_s3(values, mu);
   }
 
-  double Js[4][3][3], J[3][3];
-  simplex_jacobians(vertices, Js);
-  ftk::lerp_s3m3x3(Js, mu, J);
+  double J[3][3] = {0}; // jacobian or hessian
+  if (jacobian_field_source != SOURCE_NONE) {
+    double Js[4][3][3];
+    simplex_jacobians(vertices, Js);
+    ftk::lerp_s3m3x3(Js, mu, J);
+  }
 
   cp.type = ftk::critical_point_type_3d(J, is_jacobian_field_symmetric);
   cp.tag = e.to_integer(m);
-- 
2.43.0


From 3ee488e66f88728b59b0962b0ee38e8b4bc3fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 08/73] fix: the 3D regular critical point tracker ignores the
 type filter

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index faa1052..fb3dd5f 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -175,7 +175,8 @@ inline void critical_point_tracker_3d_regular::update_timestep()
       feature_point_t cp;
       if (check_simplex(e, cp)) {
         std::lock_guard<std::mutex> guard(mutex);
-        discrete_critical_points[e] = cp;
+        if (filter_critical_point_type(cp))
+          discrete_critical_points[e] = cp;
         // fprintf(stderr, "x={%f, %f, %f}, t=%f, cond=%f, type=%d\n", cp[0], cp[1], cp[2], cp.t, cp.cond, cp.type);
       }
     };
-- 
2.43.0


From 36cf9396312606688746e01e6ab8a22bc70094ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 09/73] fix: the 3D regular critical point tracker drops the z
 index of explicit coordinates and takes z for time

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index fb3dd5f..a475c7f 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -382,10 +382,10 @@ inline void critical_point_tracker_3d_regular::simplex_coordinates(
     }
   } else if (mode_phys_coords == REGULAR_COORDS_EXPLICIT) {
     for (int i = 0; i < vertices.size(); i ++) {
-      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1]); // x
-      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1]); // y
-      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1]);
-      X[i][3] = vertices[i][2]; // t
+      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1], vertices[i][2]); // x
+      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1], vertices[i][2]); // y
+      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1], vertices[i][2]); // z
+      X[i][3] = vertices[i][3]; // t
     }
   }
 }
-- 
2.43.0


From 887565ba2c4c7131c8ff3fb6381e25b2d8d8c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 10/73] fix: missing (NaN) values abort the unstructured
 critical point trackers

---
 include/ftk/filters/critical_point_tracker_2d_unstructured.hh | 3 +++
 include/ftk/filters/critical_point_tracker_3d_unstructured.hh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
index b5206f9..f58c13d 100644
--- a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
@@ -112,6 +112,9 @@ inline bool critical_point_tracker_2d_unstructured::check_simplex(int i, feature
 
   double X[3][4], f[3][FTK_CP_MAX_NUM_VARS], V[3][2], Js[3][2][2];
   simplex_values<double>(tri, X, f, V, Js);
+  for (int k = 0; k < 3; k ++)
+    for (int j = 0; j < 2; j ++)
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
 
 #if FTK_HAVE_GMP
   typedef mpf_class fp_t;
diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index 1efcce4..d59296c 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -107,6 +107,9 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
 
   double X[4][4], f[4][FTK_CP_MAX_NUM_VARS], V[4][3], Js[4][3][3];
   simplex_values<4, double>(tet, X, f, V, Js);
+  for (int k = 0; k < 4; k ++)
+    for (int j = 0; j < 3; j ++)
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
 
   // fprintf(stderr, "tet=%d, %d, %d, %d\n", tet[0], tet[1], tet[2], tet[3]);
   // print4x3("V", V);
-- 
2.43.0


From 889926e6d1f70df404f63011a8a0939569a4949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 11/73] fix: the unstructured critical point trackers drop
 points whose simplex has degenerate vector values although the robust test
 accepts them

---
 .../critical_point_tracker_2d_unstructured.hh  | 15 +++------------
 .../critical_point_tracker_3d_unstructured.hh  | 18 ++++--------------
 2 files changed, 7 insertions(+), 26 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
index f58c13d..bcf9aed 100644
--- a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
@@ -3,6 +3,7 @@
 
 #include <ftk/config.hh>
 #include <ftk/numeric/print.hh>
+#include <ftk/numeric/clamp.hh>
 #include <ftk/numeric/cross_product.hh>
 #include <ftk/numeric/vector_norm.hh>
 #include <ftk/numeric/linear_interpolation.hh>
@@ -134,18 +135,8 @@ inline bool critical_point_tracker_2d_unstructured::check_simplex(int i, feature
 
   double mu[3], x[4];
   bool succ2 = ftk::inverse_lerp_s2v2(V, mu);
-  if (!succ2) { // clamp to normal range
-    if (std::isnan(mu[0]) || std::isinf(mu[0])) 
-      return false;
-      // mu[0] = mu[1] = mu[2] = 1.0 / 3;
-    else {
-      mu[0] = std::max(std::min(1.0, mu[0]), 0.0);
-      mu[1] = std::max(std::min(1.0-mu[0], mu[1]), 0.0);
-      mu[2] = 1.0 - mu[0] - mu[1];
-      // fprintf(stderr,  "mu =%f, %f, %f\n", mu[0], mu[1], mu[2]);
-    }
-    // fprintf(stderr,  "mu'=%f, %f, %f\n", mu[0], mu[1], mu[2]);
-  }
+  if (!succ2) // clamp to normal range
+    clamp_barycentric<3>(mu);
   ftk::lerp_s2v4(X, mu, x);
   cp.x[0] = x[0];
   cp.x[1] = x[1];
diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index d59296c..0ddb4e2 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -3,6 +3,7 @@
 
 #include <ftk/config.hh>
 #include <ftk/numeric/print.hh>
+#include <ftk/numeric/clamp.hh>
 #include <ftk/numeric/cross_product.hh>
 #include <ftk/numeric/vector_norm.hh>
 #include <ftk/numeric/linear_interpolation.hh>
@@ -132,20 +133,9 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
 
   double mu[4], x[4], cond;
   bool succ2 = ftk::inverse_lerp_s3v3(V, mu, &cond);
-  if (!succ2) { // clamp to normal range
-    // return false;
-    if (std::isnan(mu[0]) || std::isinf(mu[0])) 
-      return false;
-      // mu[0] = mu[1] = mu[2] = 1.0 / 3;
-    else {
-      mu[0] = std::max(std::min(1.0, mu[0]), 0.0);
-      mu[1] = std::max(std::min(1.0-mu[0], mu[1]), 0.0);
-      mu[2] = std::max(std::min(1.0-mu[1]-mu[0], mu[2]), 0.0);
-      mu[2] = 1.0 - mu[0] - mu[1] - mu[2];
-      // fprintf(stderr,  "mu =%f, %f, %f\n", mu[0], mu[1], mu[2]);
-    }
-  }
-  
+  if (!succ2) // clamp to normal range
+    clamp_barycentric<4>(mu);
+
   ftk::lerp_s3v4(X, mu, x);
   cp.x[0] = x[0];
   cp.x[1] = x[1];
-- 
2.43.0


From d60a746ce88a04415ff3dc13c485f19626af4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 12/73] fix: slicing trajectories again repeats every point

---
 include/ftk/filters/critical_point_tracker.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index fda04bf..6ab786f 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -819,6 +819,8 @@ std::vector<feature_curve_t> critical_point_tracker::trace_critical_points_offli
 
 inline void critical_point_tracker::slice_traced_critical_points()
 {
+  sliced_critical_points.clear();
+
   int sum0 = 0;
   for (const auto &kv : traced_critical_points) {
     const auto &traj = kv.second;
-- 
2.43.0


From 73fd45ea2ff97420d06e3a4c73dba98979fbc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 13/73] fix: intercepting a curve by time loses points if its
 ends are not its earliest and latest points, and dereferences empty curves

---
 include/ftk/features/feature_curve.hh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 57b395c..09b67d0 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -355,9 +355,6 @@ inline int feature_curve_t::locate(double t, bool cap) const
 inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const //! assuming the traj is already reordered
 {
   feature_curve_t result;
-  if (t0 > back().t || t1 < front().t) 
-    return result;
-
   for (int i = 0; i < size(); i ++)
     if (at(i).t >= t0 && at(i).t <= t1)
       result.push_back(at(i));
-- 
2.43.0


From 53a847df9653d6b86a43e94aee2cbc9556e84aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 14/73] fix: splitting a curve by type loses the first point of
 every run but the first

---
 include/ftk/features/feature_curve.hh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 09b67d0..dcda69f 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -227,15 +227,12 @@ inline std::vector<feature_curve_t> feature_curve_t::split() const
     if (subtraj.empty())
       current_type = at(i).type;
 
-    if (at(i).type == current_type)
-      subtraj.push_back(at(i));
+    subtraj.push_back(at(i));
 
-    if (at(i).type != current_type || i == size() - 1) {
-      if (subtraj.size() > 0) {
-        subtraj.update_statistics();
-        results.push_back(subtraj);
-        subtraj.clear();
-      }
+    if (i == size() - 1 || at(i+1).type != current_type) {
+      subtraj.update_statistics();
+      results.push_back(subtraj);
+      subtraj.clear();
     } 
   }
 
-- 
2.43.0


From a6dd8094ea3c29e09efa1e225bff8ceaee8ee933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 15/73] fix: points appended to a trajectory by online tracing
 do not get the trajectory's number

---
 include/ftk/filters/critical_point_tracker.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 6ab786f..e421dbf 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -556,7 +556,8 @@ void critical_point_tracker::trace_critical_points_online(
         if (discrete_critical_points.find(i) != discrete_critical_points.end()) 
         {
           current = i;
-          const auto cp = discrete_critical_points[current];
+          auto cp = discrete_critical_points[current];
+          cp.id = traj.id;
           // if (cp.ordinal) // TODO FIXME
           //   // sliced_critical_points[cp.timestep][k] = cp;
           //   sliced_critical_points[cp.timestep].push_back(cp);
@@ -584,7 +585,8 @@ void critical_point_tracker::trace_critical_points_online(
         {
           // fprintf(stderr, "tracing backwards!!\n");
           current = i;
-          const auto cp = discrete_critical_points[current];
+          auto cp = discrete_critical_points[current];
+          cp.id = traj.id;
           // TODO FIXME
           // if (cp.ordinal)
           //   // sliced_critical_points[cp.timestep][k] = cp;
-- 
2.43.0


From 1a95c05d110503352b4193b87d89989e541fcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 16/73] fix: serialized curves lose their number, closedness
 and speed range (also when gathered from other processes)

---
 include/ftk/features/feature_curve.hh | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index dcda69f..27745d6 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -43,12 +43,12 @@ struct feature_curve_t : public std::vector<feature_point_t>
   template <int k=2> void unwrap(const double period); // unwrap the curve in a periodical domain
 
 public:
-  int id;
+  int id = 0;
   bool complete = false, loop = false;
-  std::array<double, FTK_CP_MAX_NUM_VARS> max, min, persistence;
-  std::array<double, 3> bbmin, bbmax; // bounding box
-  double tmin, tmax; // time bounding box
-  double vmmin, vmmax; // min/max moving speed
+  std::array<double, FTK_CP_MAX_NUM_VARS> max = {0}, min = {0}, persistence = {0};
+  std::array<double, 3> bbmin = {0}, bbmax = {0}; // bounding box
+  double tmin = 0, tmax = 0; // time bounding box
+  double vmmin = 0, vmmax = 0; // min/max moving speed
   unsigned int consistent_type = 0; // 0 if no consistent type
 };
 
@@ -465,7 +465,9 @@ namespace nlohmann
 namespace diy {
   template <> struct Serialization<ftk::feature_curve_t> {
     static void save(diy::BinaryBuffer& bb, const ftk::feature_curve_t &t) {
+      diy::save(bb, t.id);
       diy::save(bb, t.complete);
+      diy::save(bb, t.loop);
       diy::save(bb, t.max);
       diy::save(bb, t.min);
       diy::save(bb, t.persistence);
@@ -473,6 +475,8 @@ namespace diy {
       diy::save(bb, t.bbmax);
       diy::save(bb, t.tmin);
       diy::save(bb, t.tmax);
+      diy::save(bb, t.vmmin);
+      diy::save(bb, t.vmmax);
       diy::save(bb, t.consistent_type);
       diy::save(bb, t.size());
       for (auto i = 0; i < t.size(); i ++)
@@ -481,7 +485,9 @@ namespace diy {
     }
     
     static void load(diy::BinaryBuffer& bb, ftk::feature_curve_t &t) {
+      diy::load(bb, t.id);
       diy::load(bb, t.complete);
+      diy::load(bb, t.loop);
       diy::load(bb, t.max);
       diy::load(bb, t.min);
       diy::load(bb, t.persistence);
@@ -489,6 +495,8 @@ namespace diy {
       diy::load(bb, t.bbmax);
       diy::load(bb, t.tmin);
       diy::load(bb, t.tmax);
+      diy::load(bb, t.vmmin);
+      diy::load(bb, t.vmmax);
       diy::load(bb, t.consistent_type);
       size_t s;
       diy::load(bb, s);
-- 
2.43.0


From c5cb35cb59580990811d62afefc915c9913f0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 17/73] fix: curves read back from JSON lose their closedness
 and completeness

---
 include/ftk/features/feature_curve.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 27745d6..ddec21c 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -432,6 +432,8 @@ namespace nlohmann
     static void to_json(json &j, const feature_curve_t& t) {
       j = {
         {"id", t.id},
+        {"complete", t.complete},
+        {"loop", t.loop},
         {"max", t.max},
         {"min", t.min},
         {"persistence", t.persistence},
@@ -439,6 +441,8 @@ namespace nlohmann
         {"bbmax", t.bbmax},
         {"tmin", t.tmin},
         {"tmax", t.tmax},
+        {"vmmin", t.vmmin},
+        {"vmmax", t.vmmax},
         {"consistent_type", t.consistent_type},
         {"traj", static_cast<std::vector<feature_point_t>>(t)}
       };
@@ -446,6 +450,8 @@ namespace nlohmann
 
     static void from_json(const json&j, feature_curve_t& t) {
       t.id = j["id"];
+      t.complete = j.value("complete", false);
+      t.loop = j.value("loop", false);
       t.max = j["max"];
       t.min = j["min"];
       t.persistence = j["persistence"];
@@ -453,6 +459,8 @@ namespace nlohmann
       t.bbmax = j["bbmax"];
       t.tmin = j["tmin"];
       t.tmax = j["tmax"];
+      t.vmmin = j.value("vmmin", 0.0);
+      t.vmmax = j.value("vmmax", 0.0);
       t.consistent_type = j["consistent_type"];
       std::vector<feature_point_t> traj = j["traj"];
       t.clear();
-- 
2.43.0


From da1d3828e286a2154a89d1e312a1e640a97061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 18/73] fix: trajectory sets read back from JSON are
 renumbered, so pieces sharing a number fall apart

---
 include/ftk/features/feature_curve_set.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index ae5c60d..d583004 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -131,7 +131,7 @@ inline std::list<feature_curve_t> feature_curve_set_t::to_list() const
 inline void feature_curve_set_t::from_list(const std::list<feature_curve_t>& list)
 {
   for (const auto &c : list)
-    this->insert({get_new_id(), c});
+    this->insert({c.id, c});
 }
 
 inline void feature_curve_set_t::write(const std::string& filename, const std::string& format) const
-- 
2.43.0


From 7af7dffc5d8ac0f7e4639ca3c6cf14d3e88630bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 19/73] fix: bounding boxes in trajectory text files are not
 closed

---
 include/ftk/features/feature_curve_set.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index d583004..4931d80 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -205,12 +205,12 @@ inline void feature_curve_set_t::write_text(std::ostream& os, /*const int cpdims
 
     os << "bbmin=(";
     for (int k = 0; k < 3; k ++)
-      if (k < 3) os << curve.bbmin[k] << ", ";
+      if (k < 2) os << curve.bbmin[k] << ", ";
       else os << curve.bbmin[k] << "), ";
     
     os << "bbmax=(";
     for (int k = 0; k < 3; k ++)
-      if (k < 3) os << curve.bbmax[k] << ", ";
+      if (k < 2) os << curve.bbmax[k] << ", ";
       else os << curve.bbmax[k] << "), ";
     
     os << "tmin=" << curve.tmin << ", tmax=" << curve.tmax << ", ";
-- 
2.43.0


From 343c8d0798de9b4df00b6ed585e6e450350b9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 20/73] fix: online tracing with several processes gathers and
 traces the same points again in every step

---
 include/ftk/filters/critical_point_tracker.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index e421dbf..469f1e8 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -531,7 +531,10 @@ void critical_point_tracker::trace_critical_points_online(
 {
   // 0. gather discrete trajectories
   diy::mpi::gather(comm, discrete_critical_points, discrete_critical_points, get_root_proc());
-  if (!is_root_proc()) return;
+  if (!is_root_proc()) {
+    discrete_critical_points.clear(); // the root process has them now
+    return;
+  }
 
   // fprintf(stderr, "hey!!!, #traj=%zu, discrete points:\n", trajectories.size());
   // for (const auto kv : discrete_critical_points)
-- 
2.43.0


From f81f3722fe32401868a2139bd7ee3a0095619e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 21/73] fix: set_use_default_domain_partition ignores its
 argument

---
 include/ftk/filters/tracker.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/tracker.hh b/include/ftk/filters/tracker.hh
index 56fa48e..d4b23fb 100644
--- a/include/ftk/filters/tracker.hh
+++ b/include/ftk/filters/tracker.hh
@@ -41,7 +41,7 @@ struct tracker : public filter
   int get_current_timestep() const {return current_timestep;}
  
   void set_input_array_partial(bool b) {is_input_array_partial = b;}
-  void set_use_default_domain_partition(bool b) {use_default_domain_partition = true;}
+  void set_use_default_domain_partition(bool b) {use_default_domain_partition = b;}
 
   static int str2tracker(const std::string&);
 
-- 
2.43.0


From a9e268c3a9fd46493253fcd83ff581898013987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 22/73] fix: curves read from VTK poly data get the points of
 the first curve, closed curves repeat a point, single-point curves are
 dropped

---
 include/ftk/features/feature_curve_set.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index 4931d80..7fb90e3 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -257,7 +257,9 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
   vtkSmartPointer<vtkFloatArray> arr_time = vtkFloatArray::SafeDownCast( pd->GetAbstractArray("time") );
   vtkSmartPointer<vtkFloatArray> arr_cond = vtkFloatArray::SafeDownCast( pd->GetAbstractArray("cond") );
 
-  auto iter = vtk::TakeSmartPointer(lines->NewIterator());
+  // curves are polylines; curves with a single point are vertices
+  for (auto cells : {verts, lines}) {
+  auto iter = vtk::TakeSmartPointer(cells->NewIterator());
   for (iter->GoToFirstCell(); !iter->IsDoneWithTraversal(); iter->GoToNextCell())
   {
     feature_curve_t curve;
@@ -266,7 +268,12 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
     iter->GetCurrentCell(size, idlist);
     if (size == 0) continue;
 
-    for (auto i = 0; i < size; i ++) {
+    // the last point of a closed curve is the first one again
+    curve.loop = size > 1 && idlist[0] == idlist[size-1];
+    const vtkIdType npts = curve.loop ? size - 1 : size;
+
+    for (auto j = 0; j < npts; j ++) {
+      const vtkIdType i = idlist[j];
       feature_point_t p;
 
       const double *x = points->GetPoint(i);
@@ -288,10 +295,10 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
       curve.push_back(p);
     }
 
-    if (curve.front().tag == curve.back().tag)
-      curve.loop = true;
-
-    this->insert({curve[0].id, curve});
+    curve.id = curve[0].id;
+    curve.update_statistics();
+    this->insert({curve.id, curve});
+  }
   }
 }
 
-- 
2.43.0


From a20de22ffa54122b272cbd8c56a9b653128eb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 23/73] fix: parallel loops with more than 2^31 tasks (regular
 meshes with more than 2^31 simplices per timestep) run nothing

---
 include/ftk/object.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/object.hh b/include/ftk/object.hh
index 3e79d34..25f41da 100644
--- a/include/ftk/object.hh
+++ b/include/ftk/object.hh
@@ -58,25 +58,25 @@ struct object {
 #endif
   }
 
-  static void parallel_for(int ntasks, std::function<void(int)> f, 
+  static void parallel_for(size_t ntasks, std::function<void(size_t)> f, 
       int thread_backend = FTK_THREAD_PTHREAD, 
       int nthreads = std::thread::hardware_concurrency(), 
       bool affinity = true)
   {
     if (thread_backend == FTK_THREAD_PTHREAD) {
-      nthreads = std::min(ntasks, nthreads);
+      nthreads = std::min(ntasks, static_cast<size_t>(nthreads));
 
       std::vector<std::thread> workers;
       for (auto i = 1; i < nthreads; i ++) {
         workers.push_back(std::thread([=]() {
           if (affinity) set_affinity(i);
-          for (auto j = i; j < ntasks; j += nthreads)
+          for (size_t j = i; j < ntasks; j += nthreads)
             f(j);
         }));
       }
 
       if (affinity) set_affinity(0);
-      for (auto j = 0; j < ntasks; j += nthreads) // the main thread
+      for (size_t j = 0; j < ntasks; j += nthreads) // the main thread
         f(j);
 
       std::for_each(workers.begin(), workers.end(), [](std::thread &t) {t.join();});
@@ -110,7 +110,7 @@ struct object {
     std::vector<T> vector(set.size());
     std::copy(set.begin(), set.end(), vector.begin());
 
-    parallel_for(set.size(), [&](int i) { f(vector[i]); }, 
+    parallel_for(set.size(), [&](size_t i) { f(vector[i]); }, 
         xl, nthreads, affinity);
   }
 
@@ -124,7 +124,7 @@ struct object {
     for (typename Container::iterator it = map.begin(); it != map.end(); it ++)
       its.push_back(it);
 
-    parallel_for(its.size(), [&](int i) { f(its[i]); }, 
+    parallel_for(its.size(), [&](size_t i) { f(its[i]); }, 
         xl, nthreads, affinity);
   }
  
-- 
2.43.0


From 49ef36d7a53a7df85815c205e314d13577cfa618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 24/73] fix: concurrent unions of the distributed union-find
 lose links between the sets

---
 include/ftk/basic/duf.hh | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/ftk/basic/duf.hh b/include/ftk/basic/duf.hh
index e3c4359..6a4b814 100644
--- a/include/ftk/basic/duf.hh
+++ b/include/ftk/basic/duf.hh
@@ -23,6 +23,9 @@ struct duf {
 
   std::set<T, Compare> get_roots() const;
 
+private:
+  T find_(T) const; // find without locking
+
 private:
   mutable std::map<T, T, Compare> parents; // parents in the local process
   mutable std::mutex mutex;
@@ -41,24 +44,28 @@ bool duf<T, Compare>::has(T i) const
 template <typename T, class Compare>
 void duf<T, Compare>::unite(T i, T j)
 {
-  i = find(i); // i <-- root(i)
-  j = find(j); // j <-- root(j)
+  // the roots must not change before they are linked
+  std::lock_guard<std::mutex> guard(mutex);
+
+  i = find_(i); // i <-- root(i)
+  j = find_(j); // j <-- root(j)
   
   if (i == j) return;
   if (i > j) std::swap(i, j); // ensure i<j
 
-  // critical section
-  {
-    std::lock_guard<std::mutex> guard(mutex);
-    parents[j] = i; 
-  }
+  parents[j] = i; 
 }
 
 template <typename T, class Compare>
 T duf<T, Compare>::find(T i) const
 {
   std::lock_guard<std::mutex> guard(mutex);
-  
+  return find_(i);
+}
+
+template <typename T, class Compare>
+T duf<T, Compare>::find_(T i) const
+{
   if (parents.find(i) == parents.end()) { // if i does not exist, insert i to the graph and return i as the root
     parents.insert({i, i}); // parents[i] = i;
     return i;
@@ -84,9 +91,10 @@ void duf<T>::print() const
 template <typename T, class Compare>
 std::set<T, Compare> duf<T, Compare>::get_roots() const
 {
+  std::lock_guard<std::mutex> guard(mutex);
   std::set<T, Compare> roots;
   for (const auto &kv : parents) {
-    if (kv.first == find(kv.second))
+    if (kv.first == find_(kv.second))
       roots.insert(kv.first);
   }
   return roots;
-- 
2.43.0


From 83aacf621a85e67cd22a6da255ce8faaf009c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 25/73] fix: all2all receives all messages at the same place

---
 include/ftk/utils/all2all.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/utils/all2all.hh b/include/ftk/utils/all2all.hh
index b765a60..8f52811 100644
--- a/include/ftk/utils/all2all.hh
+++ b/include/ftk/utils/all2all.hh
@@ -37,7 +37,7 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
 
   std::vector<int> recvcounts(np), rdispls(np);
   for (int i = 0; i < np; i ++) {
-    rdispls[i] = recvcounts[i];
+    rdispls[i] = (i == 0) ? 0 : (rdispls[i-1] + recvcounts[i-1]);
     recvcounts[i] = allcounts[i*np+rank];
   }
 
-- 
2.43.0


From 62c5f9b9f092bd20c2de16d35482ad8e4fc1dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 26/73] fix: derived gradients and Jacobians depend on how the
 domain is partitioned if processes read their blocks only

---
 .../critical_point_tracker_2d_regular.hh      |  6 ++---
 include/ftk/filters/regular_tracker.hh        | 11 +++++---
 include/ftk/ndarray/grad.hh                   | 26 ++++++++++++-------
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index 75fc90b..62e3596 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -241,9 +241,9 @@ inline void critical_point_tracker_2d_regular::push_scalar_field_snapshot(const
 
   snapshot.scalar = s;
   if (vector_field_source == SOURCE_DERIVED) {
-    snapshot.vector = gradient2D(s);
+    snapshot.vector = gradient2D(s, array_domain.size(0), array_domain.size(1));
     if (jacobian_field_source == SOURCE_DERIVED)
-      snapshot.jacobian = jacobian2D<double, true>(snapshot.vector);
+      snapshot.jacobian = jacobian2D<double, true>(snapshot.vector, array_domain.size(0), array_domain.size(1));
   }
 
   field_data_snapshots.emplace_back( snapshot );
@@ -255,7 +255,7 @@ inline void critical_point_tracker_2d_regular::push_vector_field_snapshot(const
  
   snapshot.vector = v;
   if (jacobian_field_source == SOURCE_DERIVED)
-    snapshot.jacobian = jacobian2D(snapshot.vector);
+    snapshot.jacobian = jacobian2D(snapshot.vector, array_domain.size(0), array_domain.size(1));
 
   field_data_snapshots.emplace_back( snapshot );
 }
diff --git a/include/ftk/filters/regular_tracker.hh b/include/ftk/filters/regular_tracker.hh
index fd15372..51be107 100644
--- a/include/ftk/filters/regular_tracker.hh
+++ b/include/ftk/filters/regular_tracker.hh
@@ -129,17 +129,20 @@ inline void regular_tracker::initialize()
    
     // a ghost size of 2 is necessary for jacobian derivaition; 
     // even if jacobian is not necessary, a ghost size of 1 is 
-    // necessary for accessing values on boundaries
-    std::vector<size_t> ghost;
-    for (int i = 0; i < domain.nd(); i ++)
+    // necessary for accessing values on boundaries; simplices
+    // reach one vertex beyond the upper boundaries
+    std::vector<size_t> ghost, ghost_high;
+    for (int i = 0; i < domain.nd(); i ++) {
       ghost.push_back(2);
+      ghost_high.push_back(3);
+    }
     
     // partitioner.partition(comm.size(), {}, ghost);
     partitioner.partition(comm.size()); 
 
     local_domain = partitioner.get_core(comm.rank());
     // local_domain = partitioner.get_ext(comm.rank());
-    local_array_domain = partitioner_array.add_ghost(local_domain, ghost, ghost);
+    local_array_domain = partitioner_array.add_ghost(local_domain, ghost, ghost_high);
 
     // std::cerr << "local_domain: " << local_domain << std::endl;
     // std::cerr << "local_array_domain: " << local_array_domain << std::endl;
diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 06682db..3591d43 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -6,11 +6,14 @@
 
 namespace ftk {
 
-// derive 2D gradients for 2D scalar field
+// derive 2D gradients for 2D scalar field; if the array is a block of a larger 
+// array, the dimensions of the latter determine the scale
 template <typename T>
-ndarray<T> gradient2D(const ndarray<T>& scalar)
+ndarray<T> gradient2D(const ndarray<T>& scalar, int W = 0, int H = 0)
 {
   const int DW = scalar.dim(0), DH = scalar.dim(1);
+  if (W == 0) W = DW;
+  if (H == 0) H = DH;
   ndarray<T> grad;
   grad.reshape(2, DW, DH); 
 
@@ -23,8 +26,8 @@ ndarray<T> gradient2D(const ndarray<T>& scalar)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      auto dfdx = grad(0, i, j) = (f(i+1, j) - f(i-1, j)) * (DW-1);
-      auto dfdy = grad(1, i, j) = (f(i, j+1) - f(i, j-1)) * (DH-1);
+      auto dfdx = grad(0, i, j) = (f(i+1, j) - f(i-1, j)) * (W-1);
+      auto dfdy = grad(1, i, j) = (f(i, j+1) - f(i, j-1)) * (H-1);
     }
   }
   return grad;
@@ -50,11 +53,14 @@ ndarray<T> gradient2Dt(const ndarray<T>& scalar)
   return grad;
 }
 
-// derive gradients for 2D vector field
+// derive gradients for 2D vector field; if the array is a block of a larger 
+// array, the dimensions of the latter determine the scale
 template <typename T, bool symmetric=false>
-ndarray<T> jacobian2D(const ndarray<T>& vec)
+ndarray<T> jacobian2D(const ndarray<T>& vec, int W = 0, int H = 0)
 {
   const int DW = vec.dim(1), DH = vec.dim(2);
+  if (W == 0) W = DW;
+  if (H == 0) H = DH;
   ndarray<T> grad;
   grad.reshape(2, 2, DW, DH);
   
@@ -67,10 +73,10 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
-              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
-              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
-              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
+      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (W-1),
+              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (H-1),
+              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (W-1), 
+              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (H-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
-- 
2.43.0


From 84072e43e94f8a719a58986a761a399a8ea4f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 27/73] fix: the top pentachoron of an extruded tetrahedron has
 a vertex twice

---
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 0e2041a..47207d7 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -433,9 +433,9 @@ void simplicial_unstructured_extruded_3d_mesh<I, F>::get_simplex(int d, I k, I v
         verts[4] = tet[3] + m->n(0);
         break;
 
-      case 3: // type IV:  0 1'1'2'3'
+      case 3: // type IV:  0 0'1'2'3'
         verts[0] = tet[0];
-        verts[1] = tet[1] + m->n(0);
+        verts[1] = tet[0] + m->n(0);
         verts[2] = tet[1] + m->n(0);
         verts[3] = tet[2] + m->n(0);
         verts[4] = tet[3] + m->n(0);
-- 
2.43.0


From af92f945b32d08ed1b18928258dc70fe6c282e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 28/73] fix: side_of misses tetrahedra around a triangle of the
 extruded tetrahedral mesh

---
 ...implicial_unstructured_extruded_3d_mesh.hh | 230 +++---------------
 1 file changed, 31 insertions(+), 199 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 47207d7..dff02a8 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -999,219 +999,51 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
         }
       }
     }
-  } else if (d == 2) { // WIP
+  } else if (d == 2) {
     // find all tets in the base mesh that contains tri 012
     // check "position" too, e,g, 013 in 0123
     const I v0[3] = {mod(v[0], m->n(0)), mod(v[1], m->n(0)), mod(v[2], m->n(0))};
     I otid, oeid;
 
-    if (i < m->n(2)) { // type 0 1 2 (or 0'1'2'), pos=0, 1, 2, 3
+    if (i < 3*m->n(2)) { // type 0 1 2, 0 1 2', or 0 1'2'
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
-      for (auto otetid : m->side_of(2, otid)) {
-        I tet[4];
-        m->get_simplex(3, otetid, tet);
-
-        int pos = position23(v0, tet);
-        if (pos == 0) { // a 0 1 2 in base mesh, find all tets that contains 012 or 0'1'2' in the a012--a'0'1'2' prism
-                        // equiv to find 123 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1'2'3' (t-1)
-          results.insert(otetid + (t-1)*n(3) + 3*m->n(3));
-        } else if (pos == 1) { // 0 a 1 2, equil. 023 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 2 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 2) { // 0 1 a 2, equil. 013 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 3) { // 0 1 2 a, equil. 012 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1 2 2' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 0 0'1'2' (t-1, 0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-        }
+      // tets inside the prism of the triangle
+      if (i < m->n(2)) { // type 0 1 2
+        results.insert(otid + t*n(3) + 4*m->n(3)); // 0 1 2 2'
+        results.insert(otid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2)); // 0 0'1'2' (t-1)
+      } else if (i < 2*m->n(2)) { // type 0 1 2'
+        results.insert(otid + t*n(3) + 4*m->n(3)); // 0 1 2 2'
+        results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2)); // 0 1 1'2'
+      } else { // type 0 1'2'
+        results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2)); // 0 1 1'2'
+        results.insert(otid + t*n(3) + 4*m->n(3) + 2*m->n(2)); // 0 0'1'2'
       }
-    } else if (i < 2*m->n(2)) { // type 0 1 2', pos=0, 1, 2, 3
-      bool found = m->find_simplex(2, v0, otid);
-      assert(found);
-
-      for (auto otetid : m->side_of(2, otid)) {
-        I tet[4];
-        m->get_simplex(3, otetid, tet);
 
-        int pos = position23(v0, tet);
-        if (pos == 0) { // a 0 1 2 in base mesh, find all tets that contains 012' in the a012--a'0'1'2' prism
-                        // equiv 123' in 0123-0'1'2'3'
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 1 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 1) { // 0 a 1 2, find 012', equiv to finding 023' in 0123-0'1'2'3'
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 0 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 2) { // 0 1 a 2, equiv to finding 013' in 0123-0'1'2'3'
-          // 0 1 1'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 1 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 3) { // 0 1 2 a, equiv to finding 012' in 0123-0'1'2'3'
-          // 0 1 2 2' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-          // 0 1 1'2' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        }
-      }
-    } else if (i < 3*m->n(2)) { // type 0 1'2', pos=0, 1, 2, 3
-      bool found = m->find_simplex(2, v0, otid);
-      assert(found);
-      
+      // "tet" type tets, by the position of the fourth vertex
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
 
-        int pos = position23(v0, tet);
-        if (pos == 0) { // 1 2'3' in tet-prism
-          // 0 1 2'3'
-          results.insert(otetid + t*n(3) + 2*m->n(3));
-          // 1 1'2'3' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 1 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 1) { // 0 2'3' in tet-prism
-          // 0 1 2'3'
-          results.insert(otetid + t*n(3) + 2*m->n(3));
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
-          // 0 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 2) { // 0 1'3' in tet-prism
-          // 0 1 1'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 0'1'3' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
-        } else if (pos == 3) { // 0 1'2' in tet-prism
-          // 0 0'1'2' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 0 1 1'2' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
+        const int pos = position23(v0, tet);
+        if (i < m->n(2)) { // type 0 1 2
+          // 0 1 2 3
+          results.insert(otetid + t*n(3));
+          if (pos == 0) // 1 2 3, in 0 1'2'3' (t-1)
+            results.insert(otetid + (t-1)*n(3) + 3*m->n(3));
+          else if (pos == 3) // 0 1 2, in 0 1 2 3'
+            results.insert(otetid + t*n(3) + m->n(3));
+        } else if (i < 2*m->n(2)) { // type 0 1 2'
+          if (pos < 3) // 1 2 3', 0 2 3', or 0 1 3', in 0 1 2 3'
+            results.insert(otetid + t*n(3) + m->n(3));
+          if (pos > 1) // 0 1 3' or 0 1 2', in 0 1 2'3'
+            results.insert(otetid + t*n(3) + 2*m->n(3));
+        } else { // type 0 1'2'
+          if (pos < 2) // 1 2'3' or 0 2'3', in 0 1 2'3'
+            results.insert(otetid + t*n(3) + 2*m->n(3));
+          if (pos > 0) // 0 2'3', 0 1'3', or 0 1'2', in 0 1'2'3'
+            results.insert(otetid + t*n(3) + 3*m->n(3));
         }
       }
     } else if (i < 3*m->n(2) + m->n(1)) { // find all triangles in the base mesh that contains edge 01 // type 0 1 1', pos=0, 1, 2
-- 
2.43.0


From 49ec3f2204f75f3e2b79a9d14fb680efc537a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 29/73] fix: unstructured meshes built from vectors have no
 edges

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 ++
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ed5ffb3..8757e0e 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -270,6 +270,8 @@ simplicial_unstructured_2d_mesh<I, F>::simplicial_unstructured_2d_mesh(const std
   triangles.reshape({3, triangles_.size()/3});
 
   build_triangles();
+  build_edges();
+  build_partition();
 }
 
 template <typename I, typename F>
diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 91ceecb..156e721 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -111,6 +111,8 @@ simplicial_unstructured_3d_mesh<I, F>::simplicial_unstructured_3d_mesh(
     tetrahedra.push_back(std::make_tuple(
           tetrahedra_[i*4], tetrahedra_[i*4+1], tetrahedra_[i*4+2], tetrahedra_[i*4+3]));
 
+  initialize();
+
   // tetrahedra.copy_vector(tetrahedra_);
   // tetrahedra.reshape({4, tetrahedra_.size()/4});
 }
-- 
2.43.0


From 994d3db0055176e6b8ecd62898340ec65df2f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 30/73] fix: neighbouring triangles are linked over the first
 edges of the mesh only

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 8757e0e..f8a3598 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -489,7 +489,7 @@ void simplicial_unstructured_2d_mesh<I, F>::build_edges()
 
   // triangle_edge_triangles
   triangle_edge_triangles.resize(n(2));
-  for (int i = 0; i < n(2); i ++) {
+  for (int i = 0; i < n(1); i ++) {
     const I t0 = edges_side_of(0, i), 
             t1 = edges_side_of(1, i);
     if (t0 >= 0 && t1 >= 0) {
-- 
2.43.0


From ccabf81e938514576062fd197fec4fcfdaab1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 31/73] fix: vector fields on triangle meshes are interpolated
 with components and vertices swapped

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index f8a3598..599554c 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -222,11 +222,11 @@ bool simplicial_unstructured_2d_mesh<I, F>::eval(const ndarray<T>& f, const F x[
       return true;
     } else if (f.multicomponents() == 1) { // vector field
       const int d = f.dim(0);
-      T fs[3][d];
+      T fs[d][3];
 
       for (int i = 0; i < 3; i ++)
         for (int j = 0; j < d; j ++)
-          fs[i][j] = f(j, tri[i]);
+          fs[j][i] = f(j, tri[i]);
 
       for (int j = 0; j < d; j ++)
         val[j] = lerp_s2(fs[j], mu);
-- 
2.43.0


From 408d8a9ce836733aa2a19ed6afd74ab98f085996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 32/73] fix: y derivatives of vector fields on triangle meshes
 are copies of the x derivatives

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 599554c..35fd50a 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -671,7 +671,7 @@ ndarray<F> simplicial_unstructured_2d_mesh<I, F>::vector_gradient(const ndarray<
 
     for (int c = 0; c < vector.dim(0); c ++) {
       grad(0, c, i) = grad(0, c, i) / ntris;
-      grad(1, c, i) = grad(0, c, i) / ntris;
+      grad(1, c, i) = grad(1, c, i) / ntris;
     }
   }
   
-- 
2.43.0


From 6c74cb2752eb45cfe920d6162f40df20062f7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 33/73] fix: triangle meshes lose orientation and
 vertex-triangle links when written and read

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 35fd50a..4929b9e 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -1150,6 +1150,9 @@ namespace diy {
       diy::save(bb, m.triangle_edges);
       diy::save(bb, m.edge_id_map);
       diy::save(bb, m.triangle_id_map);
+      diy::save(bb, m.vertex_triangles);
+      diy::save(bb, std::vector<int>(m.triangles_chi.begin(), m.triangles_chi.end()));
+      diy::save(bb, m.triangle_edge_triangles);
     }
    
     static void load(diy::BinaryBuffer& bb, ftk::simplicial_unstructured_2d_mesh<I, F>& m) {
@@ -1162,6 +1165,11 @@ namespace diy {
       diy::load(bb, m.triangle_edges);
       diy::load(bb, m.edge_id_map);
       diy::load(bb, m.triangle_id_map);
+      diy::load(bb, m.vertex_triangles);
+      std::vector<int> chi;
+      diy::load(bb, chi);
+      m.triangles_chi.assign(chi.begin(), chi.end());
+      diy::load(bb, m.triangle_edge_triangles);
     }
   };
 } // namespace diy
-- 
2.43.0


From afb59b2afc2a752c88b4568d49dfc36df7dfff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 34/73] fix: dijkstra never ends if the destination is
 unreachable

---
 include/ftk/algorithms/dijkstra.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ftk/algorithms/dijkstra.hh b/include/ftk/algorithms/dijkstra.hh
index bf812dd..e0d82c8 100644
--- a/include/ftk/algorithms/dijkstra.hh
+++ b/include/ftk/algorithms/dijkstra.hh
@@ -25,12 +25,15 @@ dijkstra(
 
   while (1) {
     Node u; // vertex in Q w/ min dist[u]
+    bool found = false;
     T mindist = std::numeric_limits<T>::max();
     for (const auto &kv : dist)
       if (visited.find(kv.first) == visited.end() && kv.second < mindist) {
         mindist = kv.second;
         u = kv.first;
+        found = true;
       }
+    if (!found) return std::vector<Node>(); // dst is not reachable
 
     visited.insert(u);
     // fprintf(stderr, "erasing %d, mindist=%f, #Q=%zu\n", u, mindist, Q.size());
-- 
2.43.0


From 8782c6896daaaf218af7948efcd473eaf7b256cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 35/73] fix: hoshen_kopelman_2d writes beyond its label array

---
 include/ftk/algorithms/hoshen_kopelman.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/algorithms/hoshen_kopelman.hh b/include/ftk/algorithms/hoshen_kopelman.hh
index 727308b..64142ef 100644
--- a/include/ftk/algorithms/hoshen_kopelman.hh
+++ b/include/ftk/algorithms/hoshen_kopelman.hh
@@ -12,7 +12,7 @@ LabelIdType hoshen_kopelman_2d(ndarray<LabelIdType>& matrix)
   LabelIdType largest_label = 0;
 
   if (matrix.nd() != 2) return 0;
-  std::vector<LabelIdType> labels(matrix.nelem() / 2);
+  std::vector<LabelIdType> labels((matrix.nelem() + 1) / 2 + 1); // labels[0] is the counter; adjacent cells never have two new labels
 
   auto make_set = [&]() {
     labels[0] ++;
-- 
2.43.0


From a52ce74df906cce4c4e36e3fd4062daf9b027c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 36/73] fix: tracking_graph::has_node and has_edge do not
 compile

---
 include/ftk/tracking_graph/tracking_graph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index 0d65859..afce440 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -94,7 +94,8 @@ template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class
 bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::has_node(TimeIndexType t, LabelIdType l) const 
 {
   std::unique_lock<std::mutex> lock(mutex);
-  return nodes.find(std::make_pair(t, l)) != nodes.end();
+  auto it = nodes.find(t);
+  return it != nodes.end() && it->second.find(std::make_pair(t, l)) != it->second.end();
 }
   
 template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class WeightType>
@@ -105,7 +106,7 @@ bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::
   auto it = right_links.find(std::make_pair(t0, l0)); 
   if (it == right_links.end()) 
     return false;
-  else if (it->find(std::make_pair(t1, l1)) == it->end())
+  else if (it->second.find(std::make_pair(t1, l1)) == it->second.end())
     return false;
   else return true;
 }
-- 
2.43.0


From 1791062ee88854eb0bb7846bbcc99fd8d9e4261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 37/73] fix: tracking_graph gives merging and splitting regions
 the same global label

---
 include/ftk/tracking_graph/tracking_graph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index afce440..9f687a8 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -144,9 +144,10 @@ void tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::
   auto components = extract_connected_components<Node, std::set<Node> >(
       [this](Node n) {
         std::set<Node> neighbors;
-        if (left_links[n].size() == 1) // nodes need to be simply connected
+        // nodes need to be simply connected, seen from both ends of the link
+        if (left_links[n].size() == 1 && right_links[*left_links[n].begin()].size() == 1)
           neighbors.insert(left_links[n].begin(), left_links[n].end());
-        if (right_links[n].size() == 1)
+        if (right_links[n].size() == 1 && left_links[*right_links[n].begin()].size() == 1)
           neighbors.insert(right_links[n].begin(), right_links[n].end());
         return neighbors;
       }, allNodes);
-- 
2.43.0


From 6f414e782a6dff45d542c900f604d8e49196a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 38/73] fix: detecting events again repeats every event

---
 include/ftk/tracking_graph/tracking_graph.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index 9f687a8..443f854 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -180,6 +180,14 @@ std::vector<TimeIndexType> tracking_graph<TimeIndexType, LabelIdType, GlobalLabe
 template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class WeightType>
 void tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::detect_events(TimeIndexType t0, TimeIndexType t1)
 {
+  // forget the events found in the same interval before
+  std::vector<Event<TimeIndexType, LabelIdType> > others;
+  for (const auto &e : events[t0])
+    if (e.interval != std::make_pair(t0, t1))
+      others.push_back(e);
+  events.erase(t0);
+  if (!others.empty()) events[t0] = others;
+
   std::set<Node> intervalNodes;
   for (auto n : nodes[t0]) intervalNodes.insert(n);
   for (auto n : nodes[t1]) intervalNodes.insert(n);
@@ -211,6 +219,7 @@ template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class
 void tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::detect_events()
 {
   const auto timesteps = get_timesteps();
+  events.clear();
   if (timesteps.size() < 2) return; // no intervals available
 
   // iterator over intervals
-- 
2.43.0


From c5387d9cb1c972fe9b565bc01b196a02cbed54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 39/73] fix: regions that overlap with no other region are
 missing in the tracking graph (births and deaths are never detected)

---
 include/ftk/filters/connected_component_tracker.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ftk/filters/connected_component_tracker.hh b/include/ftk/filters/connected_component_tracker.hh
index 7e01a68..b21ef72 100644
--- a/include/ftk/filters/connected_component_tracker.hh
+++ b/include/ftk/filters/connected_component_tracker.hh
@@ -45,6 +45,13 @@ void connected_component_tracker<TimeIndexType, LabelIdType>::finalize()
 template <typename TimeIndexType, typename LabelIdType>
 void connected_component_tracker<TimeIndexType, LabelIdType>::update_timestep()
 {
+  if (labeled_data_snapshots.empty()) return;
+
+  // every region is a node, including those that overlap with no other region
+  const auto &labels = labeled_data_snapshots.back();
+  for (const auto l : std::set<LabelIdType>(labels.begin(), labels.end()))
+    if (l != 0) tg.add_node(current_timestep, l);
+
   if (labeled_data_snapshots.size() < 2) return;
 
   const auto &labels0 = labeled_data_snapshots[0],
-- 
2.43.0


From 2f0807fb118388b7fb450a1b496f512d25324f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 40/73] fix: rotating a closed trajectory without points reads
 its first point

---
 include/ftk/features/feature_curve.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index ddec21c..c615186 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -250,7 +250,7 @@ inline std::vector<int> feature_curve_t::to_ordinals() const
   
 inline void feature_curve_t::rotate() //! if the traj is a loop and the type is inconsistent, rotate the traj before splitting
 { 
-  if (!loop) return;
+  if (!loop || empty()) return;
   if (front().type != back().type) return;
   int i;
   for (i = 0; i < size(); i ++)
-- 
2.43.0


From e9f8a9a9389f98b805965ee5c22be4c9766e7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 41/73] fix: unwrapping a trajectory without points throws

---
 include/ftk/features/feature_curve.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index c615186..2ffecdf 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -366,7 +366,7 @@ inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const //! assu
   
 template <int k> void feature_curve_t::unwrap(const double period)
 {
-  for (int i = 0; i < size()-1; i ++) {
+  for (int i = 0; i + 1 < size(); i ++) {
     const double delta = at(i+1).x[k] - at(i).x[k];
     if (delta >= period/2) {
       for (int j = i+1; j < size(); j ++)
-- 
2.43.0


From 3afb483fd5087f52bd2a5c8692e73aaedcb3ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 42/73] fix: asynchronous streams lose or repeat timesteps, or
 wait forever

---
 include/ftk/ndarray/stream.hh | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 16def43..a13a36e 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -1620,6 +1620,7 @@ void ndarray_stream<T>::start()
   if (async) {
     std::condition_variable cond;
     std::mutex mtx;
+    bool available = false; // the array has been read but not consumed yet
     bool all_done = false;
     int current_timestep;
     ndarray<T> array;
@@ -1641,28 +1642,43 @@ void ndarray_stream<T>::start()
 
         {
           std::unique_lock<std::mutex> lock(mtx);
+          cond.wait(lock, [&](){return !available;});
+
+          if (array1.empty()) // all files are read
+            break;
 
           array = array1;
           current_timestep = i;
-          if (i == nt-1 || array1.empty()) {
-            all_done = true;
-          }
+          available = true;
           cond.notify_one();
         }
       }
+
+      std::unique_lock<std::mutex> lock(mtx);
+      all_done = true;
+      cond.notify_one();
       // fprintf(stderr, "exiting reader thread..\n");
     });
 
     { // consumer
       std::unique_lock<std::mutex> lock(mtx);
-      while (!all_done) {
-        cond.wait(lock); // , [&](){return all_done;});
+      while (1) {
+        cond.wait(lock, [&](){return available || all_done;});
+        if (!available) break;
+
+        const ndarray<T> array1 = array;
+        const int timestep = current_timestep;
+        available = false;
+        cond.notify_one();
+        lock.unlock(); // the next timestep can be read in the meantime
       
         auto t1 = std::chrono::high_resolution_clock::now();
-        modified_callback(current_timestep, array);
+        modified_callback(timestep, array1);
         auto t2 = std::chrono::high_resolution_clock::now();
         float t = std::chrono::duration_cast<std::chrono::nanoseconds>(t2-t1).count() * 1e-9;
-        fprintf(stderr, "timestep=%d, t_compute=%f\n", current_timestep, t);
+        fprintf(stderr, "timestep=%d, t_compute=%f\n", timestep, t);
+
+        lock.lock();
       }
     }
 
-- 
2.43.0


From 2b9f89fa0dbc2c798b2ff16e55e901b6540d9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 43/73] fix: temporal smoothing loses the last timesteps of
 series shorter than the kernel

---
 include/ftk/filters/streaming_filter.hh | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/include/ftk/filters/streaming_filter.hh b/include/ftk/filters/streaming_filter.hh
index b4b41fe..5523da9 100644
--- a/include/ftk/filters/streaming_filter.hh
+++ b/include/ftk/filters/streaming_filter.hh
@@ -33,7 +33,6 @@ private:
   std::vector<KT> kernel;
   std::deque<T> data;
   mutable int cursor;
-  bool finishing = false;
 
   std::function<void(int, const T&)> callback;
   mutable int n_fetched_timesteps = 0;
@@ -68,23 +67,16 @@ void streaming_filter<T, KT>::push(const T& d)
 template <typename T, typename KT>
 T streaming_filter<T, KT>::get() const
 {
-  assert(ready());
-
   // fprintf(stderr, "cursor=%d, #deque=%zu\n", cursor, data.size());
   T result;
   for (int i = 0; i < kernel_size(); i++) {
-    int j;
-    if (finishing) 
-      j = std::min((int)data.size() - 1, i);
-    else 
-      j = std::max(0, i + cursor - half_kernel_size() + 1);
+    // replicating both ends of the series
+    const int j = std::min((int)data.size() - 1, std::max(0, i + cursor - half_kernel_size() + 1));
     // fprintf(stderr, "--j=%d\n", j);
     result += kernel[i] *  data[j];
   }
 
-  if (finishing) cursor --;
-  else cursor ++;
-
+  cursor ++;
   n_fetched_timesteps ++;
   return result;
 }
@@ -92,14 +84,9 @@ T streaming_filter<T, KT>::get() const
 template <typename T, typename KT>
 void streaming_filter<T, KT>::finish()
 {
-  finishing = true;
-  while (1) {
-    data.pop_front();
-    if (ready() && callback) {
+  if (callback)
+    while (cursor < (int)data.size())
       callback(n_fetched_timesteps, get());
-    }
-    if (!ready()) break;
-  }
 }
 
 }
-- 
2.43.0


From da52f434abb2a38bf0f2650580a994456f96cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 44/73] fix: timesteps are lost if file names are given as an
 array

---
 include/ftk/ndarray/stream.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index a13a36e..ec5437e 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -454,8 +454,7 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
     } else if (j["type"] == "file") {
       if (j.contains("filenames")) {
         if (j["filenames"].is_array()) {
-          // j["n_timesteps"] = j["filenames"].size(); // TODO: we are assuming #timesteps = #filenames
-          j["n_timesteps"] = j["filenames"].size(); // TODO: we are assuming #timesteps = #filenames
+          // OK; the number of timesteps is determined by the file format
         } else {
           auto filenames = glob(j["filenames"]);
           if (filenames.empty()) {
-- 
2.43.0


From f93fbb173634779e398b16348e2fe9a7b79e2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 45/73] fix: temporal smoothing numbers timesteps from one
 (depends on the evaluation order of arguments)

---
 include/ftk/filters/streaming_filter.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/streaming_filter.hh b/include/ftk/filters/streaming_filter.hh
index 5523da9..cfd0d1c 100644
--- a/include/ftk/filters/streaming_filter.hh
+++ b/include/ftk/filters/streaming_filter.hh
@@ -60,7 +60,8 @@ void streaming_filter<T, KT>::push(const T& d)
 
   if (callback) 
     if (ready()) {
-      callback(n_fetched_timesteps, get());
+      const int k = n_fetched_timesteps; // get() advances it
+      callback(k, get());
     }
 }
 
@@ -85,8 +86,10 @@ template <typename T, typename KT>
 void streaming_filter<T, KT>::finish()
 {
   if (callback)
-    while (cursor < (int)data.size())
-      callback(n_fetched_timesteps, get());
+    while (cursor < (int)data.size()) {
+      const int k = n_fetched_timesteps; // get() advances it
+      callback(k, get());
+    }
 }
 
 }
-- 
2.43.0


From d08997d0e5c1592b40612ee44a487cf01f68463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 46/73] fix: 2D level-set tracking scans the whole domain on
 every process, beyond the process's own array

---
 include/ftk/filters/contour_tracker_2d_regular.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_2d_regular.hh b/include/ftk/filters/contour_tracker_2d_regular.hh
index 7cd87a4..a9a6c0c 100644
--- a/include/ftk/filters/contour_tracker_2d_regular.hh
+++ b/include/ftk/filters/contour_tracker_2d_regular.hh
@@ -224,9 +224,9 @@ inline void contour_tracker_2d_regular::update_timestep()
     }
   };
 
-  m.element_for_ordinal(1, current_timestep, func, xl, nthreads, enable_set_affinity);
+  element_for_ordinal(1, func);
   if (field_data_snapshots.size() >= 2) // interval
-    m.element_for_interval(1, current_timestep, current_timestep+1, func, xl, nthreads, enable_set_affinity);
+    element_for_interval(1, func);
 }
 
 inline void contour_tracker_2d_regular::simplex_coordinates(
-- 
2.43.0


From 4af4d5f99414a78ca5da4d629e9cdab1fab0346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 47/73] fix: 3D level-set tracking looks up gradients without
 the offset of the local array

---
 include/ftk/filters/contour_tracker_3d_regular.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index c3241c5..2103128 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -443,7 +443,10 @@ inline void contour_tracker_3d_regular::simplex_values(
         vertices[i][2] - local_array_domain.start(2));
     for (int j = 0; j < 3; j ++)
       grads[i][j] = field_data_snapshots[iv].gradient(
-          j, vertices[i][0], vertices[i][1], vertices[i][2]);
+          j, 
+          vertices[i][0] - local_array_domain.start(0), 
+          vertices[i][1] - local_array_domain.start(1), 
+          vertices[i][2] - local_array_domain.start(2));
   }
 }
 
-- 
2.43.0


From b56e50eaf23ddb7069c9b8005d10204bc1c325e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 48/73] fix: 3D level sets have flat pieces in cells beyond the
 last timestep

---
 include/ftk/filters/contour_tracker_3d_regular.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index 2103128..7d17bbd 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -117,9 +117,13 @@ inline void contour_tracker_3d_regular::build_isovolume()
         for (auto edge : tri.sides(m))
           unique_edges.insert(edge);
 
+    bool in_slab = false; // cells beyond the last timestep only have edges in that timestep
     for (auto edge : unique_edges)
-      if (intersections.find(edge) != intersections.end())
+      if (intersections.find(edge) != intersections.end()) {
+        if (!edge.is_ordinal(m)) in_slab = true;
         ids[count ++] = intersections[edge].id;
+      }
+    if (!in_slab) return;
 
     if (count == 4) {
       add_tet(ids[0], ids[1], ids[2], ids[3]);
-- 
2.43.0


From 947f1a1c99a378c3eb3058f891390980065d468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 49/73] fix: the last corner of a pentagon does not get the
 label of its surface

---
 include/ftk/features/feature_surface.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_surface.hh b/include/ftk/features/feature_surface.hh
index b15f7c4..f76cd6c 100644
--- a/include/ftk/features/feature_surface.hh
+++ b/include/ftk/features/feature_surface.hh
@@ -102,7 +102,7 @@ inline void feature_surface_t::relabel()
       uf.unite(quad[0], quad[j]);
 
   for (auto pentagon : pentagons)
-    for (int j = 1; j < 4; j ++)
+    for (int j = 1; j < 5; j ++)
       uf.unite(pentagon[0], pentagon[j]);
 
   for (int i = 0; i < pts.size(); i ++)
-- 
2.43.0


From 762764bfc4d9f71c996696f41c70389545b7509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 50/73] fix: neighboring prisms of a 3D level set cut their
 common face along different diagonals

---
 .../ftk/filters/contour_tracker_3d_regular.hh | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index 7d17bbd..ab8ea7d 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -166,10 +166,25 @@ inline void contour_tracker_3d_regular::build_isovolume()
       assert(triangle_count == 2);
       assert(quadrilaterals_count == 3);
 
-      // staircase triangulatio8n
-      add_tet(triangles[0][0], triangles[0][1], triangles[0][2], triangles[1][2]);
-      add_tet(triangles[0][0], triangles[0][1], triangles[1][1], triangles[1][2]);
-      add_tet(triangles[0][0], triangles[1][0], triangles[1][1], triangles[1][2]);
+      // each quadrilateral is cut at its corner with the least id, so that
+      // the prisms on both sides of the quadrilateral agree on the diagonal
+      int a[3], b[3], s = 0, k = 0; 
+      for (int i = 0; i < 2; i ++)
+        for (int j = 0; j < 3; j ++)
+          if (triangles[i][j] < triangles[s][k]) { s = i; k = j; }
+      for (int j = 0; j < 3; j ++) {
+        a[j] = triangles[s][(k+j)%3];
+        b[j] = triangles[1-s][(k+j)%3];
+      }
+
+      add_tet(a[0], b[0], b[1], b[2]);
+      if (std::min(a[1], b[2]) < std::min(a[2], b[1])) {
+        add_tet(a[0], a[1], a[2], b[2]);
+        add_tet(a[0], a[1], b[1], b[2]);
+      } else {
+        add_tet(a[0], a[1], a[2], b[1]);
+        add_tet(a[0], a[2], b[1], b[2]);
+      }
     }
   }, FTK_THREAD_PTHREAD, nthreads, enable_set_affinity);
 
-- 
2.43.0


From a5f247173f41129fcd70bd24814c1c10567d7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 51/73] fix: the point locator misses points on the upper and
 right sides of bounding boxes

---
 include/ftk/mesh/aabb.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/aabb.hh b/include/ftk/mesh/aabb.hh
index b3cb060..2d25dc4 100644
--- a/include/ftk/mesh/aabb.hh
+++ b/include/ftk/mesh/aabb.hh
@@ -36,7 +36,7 @@ struct AABB {
 
   bool contains(const std::array<T, N> &X) const {
     for (int i = 0; i < N; i ++) 
-      if (X[i] < A[i] || X[i] >= B[i])
+      if (X[i] < A[i] || X[i] > B[i])
         return false;
     return true;
   }
-- 
2.43.0


From 74813de4182231f8f632b230a369ac38df6d7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 52/73] fix: the point locator misses points on edges by
 rounding errors of the third barycentric coordinate

---
 include/ftk/mesh/point_locator_2d_quad.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/mesh/point_locator_2d_quad.hh b/include/ftk/mesh/point_locator_2d_quad.hh
index d5a531b..c9b7909 100644
--- a/include/ftk/mesh/point_locator_2d_quad.hh
+++ b/include/ftk/mesh/point_locator_2d_quad.hh
@@ -220,7 +220,8 @@ bool point_locator_2d_quad<I, F>::inside_triangle(const F p[], const F p1[], con
           ((p2[1] - p3[1])*(p1[0] - p3[0]) + (p3[0] - p2[0])*(p1[1] - p3[1]));
   mu[1] = ((p3[1] - p1[1])*(p[0] - p3[0]) + (p1[0] - p3[0])*(p[1] - p3[1])) /
           ((p2[1] - p3[1])*(p1[0] - p3[0]) + (p3[0] - p2[0])*(p1[1] - p3[1]));
-  mu[2] = 1.0 - mu[0] - mu[1]; 
+  mu[2] = ((p1[1] - p2[1])*(p[0] - p2[0]) + (p2[0] - p1[0])*(p[1] - p2[1])) /
+          ((p1[1] - p2[1])*(p3[0] - p2[0]) + (p2[0] - p1[0])*(p3[1] - p2[1]));
   // fprintf(stderr, "barycentric: %f, %f, %f\n", alpha, beta, gamma);
   return mu[0] >= 0 && mu[1] >= 0 && mu[2] >= 0;
 }
-- 
2.43.0


From 0007dc846d3d27c603b967bd355e30a7a1fcf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 53/73] fix: cutting a box out of a multicomponent array
 inserts into the wrong vector

---
 include/ftk/ndarray.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 2049a03..a0af7cd 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -454,11 +454,11 @@ template <typename T>
 ndarray<T> ndarray<T>::subarray(const lattice& l0) const
 {
   lattice l(l0);
-  if (l0.nd_cuttable() < nd()) {
-    for (int i = 0; i < ncd; i ++) {
-      l.starts_.insert(l.starts_.begin(), 0);
-      l.sizes_.insert(l.starts_.begin(), this->shape(i));
-    }
+  if (l0.nd_cuttable() < nd()) { // take all components
+    std::vector<size_t> starts(ncd, 0), sizes(dims.begin(), dims.begin() + ncd);
+    starts.insert(starts.end(), l0.starts().begin(), l0.starts().end());
+    sizes.insert(sizes.end(), l0.sizes().begin(), l0.sizes().end());
+    l.reshape(starts, sizes);
   }
 
   ndarray<T> arr(l.sizes());
-- 
2.43.0


From 52340fde9b74df457e3ca5f48178ec95a64bc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 54/73] fix: the maximum of an array of negative floating-point
 numbers

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index a0af7cd..dcb90e7 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -746,7 +746,7 @@ void ndarray<T>::reshape(const std::vector<size_t> &dims, T val)
 template <typename T>
 std::tuple<T, T> ndarray<T>::min_max() const {
   T min = std::numeric_limits<T>::max(), 
-    max = std::numeric_limits<T>::min();
+    max = std::numeric_limits<T>::lowest();
 
   for (size_t i = 0; i < nelem(); i ++) {
     min = std::min(min, at(i));
-- 
2.43.0


From e94b22b976fc9732921b06420a71d3dd5cb7c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 55/73] fix: reading an amira file reports failure on success

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index dcb90e7..67e6205 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -1324,7 +1324,7 @@ inline bool ndarray<float>::read_amira(const std::string& filename)
   }
 
   fclose(fp);
-  return 0;
+  return idxStartData > 0;
 }
 
 template <typename T>
-- 
2.43.0


From 87c93955ef66ca38c444767baa47c02093289216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 56/73] fix: several variables of an unstructured grid are
 written beyond an array without vertices

---
 include/ftk/ndarray/stream.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index ec5437e..8e5c8c0 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -1149,7 +1149,7 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_vtu(int k)
         for (int i = 0; i < nv; i ++)
           arrays[i].from_vtu(grid, j["variables"][i]);
 
-        array.reshape(shape());
+        array.reshape(nv, arrays[0].nelem()); // the number of vertices is only known from the grid
         for (int i = 0; i < arrays[0].nelem(); i ++) {
           for (int j = 0; j <nv; j ++) {
             array[i*nv+j] = arrays[j][i];
-- 
2.43.0


From d6c954eb2d725128e576f9dab32fb06238fbbfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 57/73] fix: binary streams ignore the components when reading
 in parallel, and the part when reading with one process

---
 include/ftk/ndarray/stream.hh | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 8e5c8c0..ef2caba 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -1007,8 +1007,8 @@ template <typename T>
 template <typename T1>
 ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
 {
-  // TODO FIXME multicomponent binary inputs
   const std::string filename = j["filenames"][k];
+  const size_t nc = n_components(); // components are interleaved in the file
 
   if (comm.size() > 1) { // MPI-IO
     ndarray<T> array;
@@ -1016,15 +1016,16 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
     MPI_File fp;
     MPI_File_open(comm, filename.c_str(), MPI_MODE_RDONLY, MPI_INFO_NULL, &fp);
 
-    std::vector<int> dsz = j["dimensions"], bst, bsz;
-    if (!part)
-      ext = shape();
-
-    std::vector<size_t> sst = ext.starts(), ssz = ext.sizes();
-    for (int i = 0; i < dsz.size(); i ++) {
-      bst.push_back(ext.start(i));
-      bsz.push_back(ext.size(i));
+    const std::vector<size_t> dims = shape();
+    std::vector<int> dsz(dims.begin(), dims.end()), bst(dims.size(), 0), bsz(dsz);
+    if (part) { // the part does not include the dimension of components
+      const size_t offset = dims.size() - ext.nd();
+      for (size_t i = 0; i < ext.nd(); i ++) {
+        bst[i + offset] = ext.start(i);
+        bsz[i + offset] = ext.size(i);
+      }
     }
+    const std::vector<size_t> ssz(bsz.begin(), bsz.end());
 
     std::reverse(dsz.begin(), dsz.end());
     std::reverse(bst.begin(), bst.end());
@@ -1056,6 +1057,7 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
     MPI_Type_free(&dtype);
 
     array.from_array(array1);
+    if (nc > 1) array.set_multicomponents();
 #else
     fatal(FTK_ERR_NOT_BUILT_WITH_MPI);
 #endif
@@ -1066,8 +1068,12 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
     ftk::ndarray<T1> array1(shape());
     array1.read_binary_file(filename);
     array.from_array(array1);
+    if (nc > 1) array.set_multicomponents();
     
-    return array;
+    if (part)
+      return array.subarray(ext);
+    else 
+      return array;
   }
 }
 
-- 
2.43.0


From 533b75e8b45bc57650fc70f0d659a778e4b6ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 58/73] fix: reading netcdf variables of more than four
 dimensions overflows the stack

---
 include/ftk/ndarray/ndarray_base.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 26780f9..f39d252 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -485,16 +485,16 @@ inline void ndarray_base::read_netcdf(int ncid, int varid, diy::mpi::communicato
 {
 #ifdef FTK_HAVE_NETCDF
   int ndims;
-  int dimids[4];
-  size_t starts[4] = {0}, sizes[4] = {0};
-
   NC_SAFE_CALL( nc_inq_varndims(ncid, varid, &ndims) );
-  NC_SAFE_CALL( nc_inq_vardimid(ncid, varid, dimids) );
+
+  std::vector<int> dimids(ndims);
+  std::vector<size_t> starts(ndims, 0), sizes(ndims, 0);
+  NC_SAFE_CALL( nc_inq_vardimid(ncid, varid, dimids.data()) );
 
   for (int i = 0; i < ndims; i ++)
     NC_SAFE_CALL( nc_inq_dimlen(ncid, dimids[i], &sizes[i]) );
   
-  read_netcdf(ncid, varid, starts, sizes, comm);
+  read_netcdf(ncid, varid, starts.data(), sizes.data(), comm);
 #else
   fatal(FTK_ERR_NOT_BUILT_WITH_NETCDF);
 #endif
-- 
2.43.0


From 003ebd6ae5c1bc47246c3eb6a8e106af6a63380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 59/73] fix: netcdf variables read into 64-bit unsigned
 integers are packed as 32-bit ones

---
 include/ftk/ndarray.hh              | 2 +-
 include/ftk/ndarray/ndarray_base.hh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 67e6205..867938c 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -787,7 +787,7 @@ template <> inline MPI_Datatype ndarray<int>::mpi_datatype() { return MPI_INT; }
 template <> inline int ndarray<double>::nc_datatype() const { return NC_DOUBLE; }
 template <> inline int ndarray<float>::nc_datatype() const { return NC_FLOAT; }
 template <> inline int ndarray<int>::nc_datatype() const { return NC_INT; }
-template <> inline int ndarray<unsigned long>::nc_datatype() const { return NC_UINT; }
+template <> inline int ndarray<unsigned long>::nc_datatype() const { return NC_UINT64; }
 template <> inline int ndarray<char>::nc_datatype() const { return NC_CHAR; }
 #else 
 template <typename T>
diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index f39d252..1834a6e 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -385,8 +385,8 @@ inline void ndarray_base::read_netcdf(int ncid, int varid, int ndims, const size
     NC_SAFE_CALL( nc_get_vara_float(ncid, varid, starts, sizes, (float*)pdata()) );
   } else if (nc_datatype() == NC_DOUBLE) {
     NC_SAFE_CALL( nc_get_vara_double(ncid, varid, starts, sizes, (double*)pdata()) );
-  } else if (nc_datatype() == NC_UINT) {
-    NC_SAFE_CALL( nc_get_vara_uint(ncid, varid, starts, sizes, (unsigned int*)pdata()) );
+  } else if (nc_datatype() == NC_UINT64) {
+    NC_SAFE_CALL( nc_get_vara_ulonglong(ncid, varid, starts, sizes, (unsigned long long*)pdata()) );
   } else if (nc_datatype() == NC_CHAR) {
     NC_SAFE_CALL( nc_get_vara_text(ncid, varid, starts, sizes, (char*)pdata()) );
   } else
-- 
2.43.0


From 5850176b40d2170eed68d5cf2b144c9b563a890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 60/73] fix: trajectory sets read from binary files were added
 to the previous ones

---
 include/ftk/features/feature_curve_set.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index 7fb90e3..928b623 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -103,6 +103,7 @@ namespace diy {
   static void load(diy::BinaryBuffer& bb, ftk::feature_curve_set_t &s) {
     size_t size;
     diy::load(bb, size);
+    s.clear();
     for (auto i = 0; i < size; i ++) {
       int id;
       diy::load(bb, id);
-- 
2.43.0


From a79c0e2aa262e0086bf01a9dc4a030a33ff4de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 61/73] fix: scalars were not read from VTK poly data

---
 include/ftk/features/feature_curve_set.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index 928b623..a7252fb 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -250,7 +250,10 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
 
   vtkSmartPointer<vtkPointData> pd = poly->GetPointData();
 
-  // TODO: additional scalars
+  std::vector<vtkSmartPointer<vtkFloatArray>> arr_scalars;
+  for (const auto &name : scalar_components)
+    arr_scalars.push_back( vtkFloatArray::SafeDownCast( pd->GetAbstractArray(name.c_str()) ) );
+
   vtkSmartPointer<vtkUnsignedIntArray> arr_type = vtkUnsignedIntArray::SafeDownCast( pd->GetAbstractArray("type") );
   vtkSmartPointer<vtkUnsignedIntArray> arr_id = vtkUnsignedIntArray::SafeDownCast( pd->GetAbstractArray("id") );
   vtkSmartPointer<vtkUnsignedIntArray> arr_tag = vtkUnsignedIntArray::SafeDownCast( pd->GetAbstractArray("tag") );
@@ -292,6 +295,10 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
       p.v[0] = v[0];
       p.v[1] = v[1];
       p.v[2] = v[2];
+
+      for (auto k = 0; k < arr_scalars.size() && k < FTK_CP_MAX_NUM_VARS; k ++)
+        if (arr_scalars[k])
+          p.scalar[k] = arr_scalars[k]->GetValue(i);
     
       curve.push_back(p);
     }
-- 
2.43.0


From 0a348a12d45e5db82eca95b41cc7a9b7942883b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 62/73] fix: writing trajectories as text to a stream wrote
 nothing

---
 include/ftk/filters/critical_point_tracker.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 469f1e8..761d4b0 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -375,6 +375,8 @@ inline void critical_point_tracker::write_traced_critical_points_text(const std:
 
 inline void critical_point_tracker::write_traced_critical_points_text(std::ostream& os) const
 {
+  if (is_root_proc())
+    traced_critical_points.write_text(os, scalar_components);
 }
 
 inline void critical_point_tracker::write_critical_points_text(const std::string& filename) const
-- 
2.43.0


From c4317726b736fb59d8c50bc1d65c21518c436d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 63/73] fix: surfaces written to VTK files lacked pentagons and
 quads

---
 include/ftk/features/feature_surface.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/ftk/features/feature_surface.hh b/include/ftk/features/feature_surface.hh
index f76cd6c..0592f92 100644
--- a/include/ftk/features/feature_surface.hh
+++ b/include/ftk/features/feature_surface.hh
@@ -189,6 +189,11 @@ inline vtkSmartPointer<vtkPolyData> feature_surface_t::to_vtp(bool generate_norm
       quad->GetPointIds()->SetId(j, q[j]);
     cells->InsertNextCell(quad);
   }
+  for (int i = 0; i < pentagons.size(); i ++) {
+    const auto &p = pentagons[i];
+    vtkIdType ids[5] = {p[0], p[1], p[2], p[3], p[4]};
+    cells->InsertNextCell(5, ids);
+  }
   poly->SetPolys(cells);
 
   if (generate_normal) {
@@ -248,6 +253,16 @@ inline vtkSmartPointer<vtkUnstructuredGrid> feature_surface_t::to_vtu() const
     vtkIdType ids[3] = {c[0], c[1], c[2]};
     grid->InsertNextCell(VTK_TRIANGLE, 3, ids);
   }
+  for (int i = 0; i < quads.size(); i ++) {
+    const auto &q = quads[i];
+    vtkIdType ids[4] = {q[0], q[1], q[2], q[3]};
+    grid->InsertNextCell(VTK_QUAD, 4, ids);
+  }
+  for (int i = 0; i < pentagons.size(); i ++) {
+    const auto &p = pentagons[i];
+    vtkIdType ids[5] = {p[0], p[1], p[2], p[3], p[4]};
+    grid->InsertNextCell(VTK_POLYGON, 5, ids);
+  }
 
   return grid;
 }
-- 
2.43.0


From 5ca65254fd54b0ae801943423856588c8b49f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 64/73] fix: Jacobians of time-varying 3D fields were stored at
 wrong places and read out of bounds

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 3591d43..acea277 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -227,14 +227,14 @@ ndarray<T> jacobian3Dt(const ndarray<T>& V)
 
 #pragma omp parallel for collapse(4)
   for (int t = 0; t < DT; t ++) {
-    for (int k = 0; k < DD-2; k ++) {
+    for (int k = 2; k < DD-2; k ++) {
       for (int j = 2; j < DH-2; j ++) {
         for (int i = 2; i < DW-2; i ++) {
           const float H00 = J(0, 0, i, j, k, t) = // ddf/dx2
             0.5 * (V(0, i+1, j, k, t) - V(0, i-1, j, k, t));
-          const float H01 = J(0, 1, i, j, k) = // ddf/dxdy
+          const float H01 = J(0, 1, i, j, k, t) = // ddf/dxdy
             0.5 * (V(0, i, j+1, k, t) - V(0, i, j-1, k, t));
-          const float H02 = J(0, 2, i, j, k) = // ddf/dxdz
+          const float H02 = J(0, 2, i, j, k, t) = // ddf/dxdz
             0.5 * (V(0, i, j, k+1, t) - V(0, i, j, k-1, t));
 
           const float H10 = J(1, 0, i, j, k, t) = // ddf/dydx
-- 
2.43.0


From a31a5c33046437bf210e3c9ac2eec19f2198cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 65/73] fix: the smoothed gradient on triangle meshes had the
 opposite sign

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 4929b9e..678e811 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -612,8 +612,8 @@ void simplicial_unstructured_2d_mesh<I, F>::smooth_scalar_gradient_jacobian(
       scalar[i] += f[k] * w;
 
       // gradient
-      grad(0, i) += - f[k] * w * d[0] / sigma2;
-      grad(1, i) += - f[k] * w * d[1] / sigma2;
+      grad(0, i) += f[k] * w * d[0] / sigma2;
+      grad(1, i) += f[k] * w * d[1] / sigma2;
 
       // jacobian
       J(0, 0, i) += (d[0]*d[0] / sigma2 - 1) / sigma2 * f[k] * w;
-- 
2.43.0


From 56bad02d539fe158ae3f519c67a10116390b9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 66/73] fix: smoothing a vector field mixed its components

---
 include/ftk/ndarray/conv.hh | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/ftk/ndarray/conv.hh b/include/ftk/ndarray/conv.hh
index 1d2fe54..40040dd 100644
--- a/include/ftk/ndarray/conv.hh
+++ b/include/ftk/ndarray/conv.hh
@@ -215,6 +215,32 @@ ndarray<T> conv_gaussian(
     const ndarray<T> &data, T sigma,
     size_t ksize=5, size_t padding=0)
 {
+  if (data.multicomponents() > 0 && data.multicomponents() < data.nd()) { // smooth each component separately
+    const size_t m = data.multicomponents();
+    std::vector<size_t> shape(data.shape().begin() + m, data.shape().end()), 
+      comps(data.shape().begin(), data.shape().begin() + m);
+    size_t nc = 1;
+    for (auto c : comps) nc *= c;
+
+    ndarray<T> res;
+    for (size_t c = 0; c < nc; c ++) {
+      ndarray<T> scalar(shape);
+      for (size_t i = 0; i < scalar.nelem(); i ++)
+        scalar[i] = data[i * nc + c];
+
+      const ndarray<T> smoothed = conv_gaussian<T>(scalar, sigma, ksize, padding);
+      if (c == 0) {
+        std::vector<size_t> shape1(comps);
+        shape1.insert(shape1.end(), smoothed.shape().begin(), smoothed.shape().end());
+        res.reshape(shape1);
+        res.set_multicomponents(m);
+      }
+      for (size_t i = 0; i < smoothed.nelem(); i ++)
+        res[i * nc + c] = smoothed[i];
+    }
+    return res;
+  }
+
   if (data.nd() == 2) return conv2D_gaussian<T>(data, sigma, ksize, ksize, padding);
   else if (data.nd() == 3) return conv3D_gaussian<T>(data, sigma, ksize, ksize, ksize, padding);
   else return ndarray<T>();
-- 
2.43.0


From a1a1728898b4c15c98a35a1b09db51d0eddfbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:34 +0000
Subject: [PATCH 67/73] fix: line tracker kept surfaces and lines over a reset

---
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 326675c..e9e3e9a 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -215,6 +215,9 @@ inline void critical_line_tracker_3d_regular::reset()
 
   field_data_snapshots.clear();
   intersections.clear();
+  related_cells.clear();
+  surfaces.clear();
+  traced_curves.clear();
 
   critical_line_tracker::reset();
 }
-- 
2.43.0


From df4edcf3cba8bd7a484596316e2aa4a949b0ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:35 +0000
Subject: [PATCH 68/73] fix: closed vortex lines were not marked as loops

---
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index e9e3e9a..0884b40 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -120,6 +120,7 @@ inline void critical_line_tracker_3d_regular::build_vortex_lines()
     auto linear_graphs = ftk::connected_component_to_linear_components<element_t>(component, neighbors);
     for (int j = 0; j < linear_graphs.size(); j ++) {
       feature_curve_t traj; 
+      traj.loop = is_loop<element_t>(linear_graphs[j], neighbors);
       for (int k = 0; k < linear_graphs[j].size(); k ++)
         traj.push_back(intersections[linear_graphs[j][k]]);
       traced_curves.add(traj);
-- 
2.43.0


From 048a2ff99424ad895ce9e8b341852e17f374d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 69/73] fix: degrees of critical points in 2D grids had the
 opposite sign

---
 include/ftk/filters/critical_point_tracker_2d_regular.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index 62e3596..43acfd5 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -653,7 +653,7 @@ inline bool critical_point_tracker_2d_regular::check_simplex(
   if (enable_computing_degrees) {
     if (cp.ordinal) {
       auto deg = positive2(vf, indices);
-      int chi = e.type == 4 ? 1 : -1;
+      int chi = e.type == 4 ? -1 : 1; // clockwise or counterclockwise
       deg *= chi;
       // fprintf(stderr, "deg=%d, chi=%d\n", deg, chi);
       if (deg == 1) cp.type = 1; 
-- 
2.43.0


From af7c13882becb7a6c19d991fc0e5c7e56eec1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 70/73] fix: computing degrees dropped the scalars of points on
 triangle meshes

---
 .../ftk/filters/critical_point_tracker_2d_unstructured.hh  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
index bcf9aed..feafd8e 100644
--- a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
@@ -155,6 +155,10 @@ inline bool critical_point_tracker_2d_unstructured::check_simplex(int i, feature
   cp.ordinal = m->is_ordinal(2, i);
   cp.timestep = current_timestep;
 
+  if (!field_data_snapshots[0].scalar.empty())
+    for (int k = 0; k < get_num_scalar_components(); k ++)
+      cp.scalar[k] = f[0][k] * mu[0] + f[1][k] * mu[1] + f[2][k] * mu[2];
+
   // deriving types
   if (enable_computing_degrees) { // compute degress instead of types
     if (cp.ordinal){
@@ -207,9 +211,6 @@ inline bool critical_point_tracker_2d_unstructured::check_simplex(int i, feature
       cp.type = ftk::critical_point_type_2d(J, false);
     }
   } else { // scalar field
-    for (int k = 0; k < get_num_scalar_components(); k ++)
-      cp.scalar[k] = f[0][k] * mu[0] + f[1][k] * mu[1] + f[2][k] * mu[2];
-    
     if (!field_data_snapshots[0].jacobian.empty()) {
       double H[2][2]; // hessian or jacobian
       ftk::lerp_s2m2x2(Js, mu, H);
-- 
2.43.0


From 44b8b621e4538034eb6dd87bf5d3d8e93c2015bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:30 +0000
Subject: [PATCH 71/73] fix: every process wrote the file of discrete critical
 points (JSON), overwriting the root's

---
 include/ftk/filters/critical_point_tracker.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 761d4b0..e81f04a 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -106,7 +106,7 @@ public: // i/o for discrete (untraced) critical points
   virtual std::vector<feature_point_t> get_critical_points() const = 0;
   json get_critical_points_json() const {return json(get_critical_points());}
   virtual void put_critical_points(const std::vector<feature_point_t>&) = 0;
-  void write_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_critical_points_json(); f.close();}
+  void write_critical_points_json(const std::string& filename) const {if (!is_root_proc()) return; std::ofstream f(filename); f << get_critical_points_json(); f.close();}
   void read_critical_points_json(const std::string& filename);
   void write_critical_points_binary(const std::string& filename) const;
   void read_critical_points_binary(const std::string& filename);
-- 
2.43.0


From bdb877876020972d84c91eb31e0fa7d3fc9285f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:16 +0000
Subject: [PATCH 72/73] fix: archived points and trajectories were ignored for
 unstructured meshes, and tracked again

---
 include/ftk/filters/json_interface.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index ec0baf7..e8c4481 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -457,6 +457,20 @@ void json_interface::consume_unstructured(ndarray_stream<> &stream, diy::mpi::co
   tracker->initialize();
   
   js = stream.get_json();
+  if (j.contains("archived_traced_critical_points_filename")) {
+    fprintf(stderr, "reading archived traced critical points...\n");
+    const std::string filename = j["archived_traced_critical_points_filename"];
+    if (ends_with(filename, "json")) tracker->read_traced_critical_points_json(filename);
+    else tracker->read_traced_critical_points_binary(filename);
+    return;
+  } else if (j.contains("archived_discrete_critical_points_filename")) {
+    const std::string filename = j["archived_discrete_critical_points_filename"];
+    if (ends_with(filename, "json")) tracker->read_critical_points_json(filename);
+    else tracker->read_critical_points_binary(filename);
+    tracker->finalize();
+    return;
+  }
+
   const size_t DT = js["n_timesteps"];
   stream.set_callback([&](int k, const ftk::ndarray<double> &field_data) {
     tracker->push_vector_field_snapshot(field_data);
-- 
2.43.0


From 58af04ad1561075d096a33d9ec37c3e41b8989a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:01 +0000
Subject: [PATCH 73/73] fix: intercepted results of regular grids were never
 written

---
 include/ftk/filters/json_interface.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index e8c4481..040c708 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -621,7 +621,7 @@ void json_interface::consume_regular(ndarray_stream<> &stream, diy::mpi::communi
 {
   auto t0 = clock_type::now();
 
-  const auto js = stream.get_json();
+  js = stream.get_json();
   const size_t nd = stream.n_dimensions(),
                DW = js["dimensions"][0], 
                DH = js["dimensions"].size() > 1 ? js["dimensions"][1].get<int>() : 0,
-- 
2.43.0

