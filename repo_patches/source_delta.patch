From 539c6b75f5800bd1fb6b6b58a1a668d441e7c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 01/44] fix: fast matrix_to_axis_angle for half turns: pick a
 non-vanishing row, normalise per rotation

---
 pytorch3d/transforms/rotation_conversions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..2de6d8d 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -547,11 +547,14 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
     )
 
     # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    # every row of nnT is a multiple of n, use the one with the largest diagonal
+    # element as the others can vanish.
+    nnT = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
+    largest = torch.diagonal(nnT, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = torch.gather(nnT, -2, largest[:, None, None].expand(-1, 1, 3)).squeeze(-2)
+    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n, dim=-1, keepdim=True)
 
     return axis_angles
 
-- 
2.43.0


From a2c4e285c2a03718767c448df88a601dfff7c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 02/44] fix: farthest point sampling returns only padding for
 clouds with nothing to sample

---
 .../sample_farthest_points.cu                 |  2 +-
 .../sample_farthest_points_cpu.cpp            |  5 +++++
 pytorch3d/ops/sample_farthest_points.py       | 19 ++++++++++++-------
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
index 5b78862..b2fc513 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cu
@@ -47,7 +47,7 @@ __global__ void FarthestPointSamplingKernel(
 
   // Write the first selected point to global memory in the first thread
   int64_t selected = start_idxs[batch_idx];
-  if (tid == 0)
+  if (tid == 0 && k_n > 0)
     idxs[batch_idx][0] = selected;
 
   // Iterate to find k_n sampled points
diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..ec1e588 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,11 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // Nothing to sample from this cloud: keep the padding value
+    if (std::min(lengths_a[n], k_a[n]) <= 0) {
+      continue;
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..7921730 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -140,6 +140,13 @@ def sample_farthest_points_naive(
     all_sampled_indices = []
 
     for n in range(N):
+        # If the pointcloud has fewer than K points then only iterate over the min
+        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        k_n = min(lengths[n], K[n])
+
         # Initialize an array for the sampled indices, shape: (max_K,)
         # pyrefly: ignore [no-matching-overload]
         sample_idx_batch = torch.full(
@@ -151,6 +158,11 @@ def sample_farthest_points_naive(
             device=device,
         )
 
+        # Nothing to sample from this cloud: keep the padding value
+        if k_n <= 0:
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
         # Initialize closest distances to inf, shape: (P,)
         # This will be updated at each iteration to track the closest distance of the
         # remaining points to any of the selected points
@@ -167,13 +179,6 @@ def sample_farthest_points_naive(
         selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
         sample_idx_batch[0] = selected_idx
 
-        # If the pointcloud has fewer than K points then only iterate over the min
-        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        k_n = min(lengths[n], K[n])
-
         # Iteratively select points for a maximum of k_n
         for i in range(1, k_n):
             # Find the distance between the last selected point
-- 
2.43.0


From 3b4d64b13768e3d979fed90b909c0aa74cd3e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 03/44] fix: packed_to_padded and padded_to_packed accept zero
 rows of more than one dimension

---
 pytorch3d/ops/packed_to_padded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..922eeb6 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -93,7 +93,7 @@ def packed_to_padded(
     if n_dims == 1:
         inputs = inputs.unsqueeze(1)
     else:
-        inputs = inputs.reshape(input_shape[0], -1)
+        inputs = inputs.flatten(start_dim=1)
     inputs_padded = _PackedToPadded.apply(inputs, first_idxs, max_size)
     # if flat is True, reshape output to (N, max_size) from (N, max_size, 1)
     # else reshape output to (N, max_size, ...)
@@ -190,7 +190,7 @@ def padded_to_packed(
     if n_dims == 2:
         inputs = inputs.unsqueeze(2)
     else:
-        inputs = inputs.reshape(*input_shape[:2], -1)
+        inputs = inputs.flatten(start_dim=2)
     inputs_packed = _PaddedToPacked.apply(inputs, first_idxs, num_inputs)
     # if input is flat, reshape output to (F,) from (F, 1)
     # else reshape output to (F, ...)
-- 
2.43.0


From 441f94570d2ead6111630985df3301bcc3f97885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 04/44] fix: in-place offset and scale of Meshes and
 Pointclouds no longer write into padded tensors shared with other objects

---
 pytorch3d/structures/meshes.py      | 4 ++++
 pytorch3d/structures/pointclouds.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..cc1a4ad 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1324,6 +1324,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the old tensor may be shared with other objects, so it is not modified
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1378,6 +1380,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the old tensor may be shared with other objects, so it is not modified
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..8d5d0c2 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -903,6 +903,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the old tensor may be shared with other objects, so it is not modified
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -992,6 +994,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the old tensor may be shared with other objects, so it is not modified
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From bdc5d2fa0f7b60968a594ef4ee32db0bfe8a2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 05/44] fix: Pointclouds.update_padded keeps normals and
 features whose padded view was not computed yet

---
 pytorch3d/structures/pointclouds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 8d5d0c2..7766174 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -1162,6 +1162,9 @@ class Pointclouds:
         # overwrite the equisized flag
         new.equisized = self.equisized
 
+        # make sure that the padded normals and features to keep exist
+        self._compute_padded()
+
         # copy normals
         if new_normals_padded is None:
             # If no normals are provided, keep old ones (shallow copy)
@@ -1172,6 +1175,7 @@ class Pointclouds:
         # copy features
         if new_features_padded is None:
             # If no features are provided, keep old ones (shallow copy)
+            new._C = self._C
             new._features_list = self._features_list
             new._features_padded = self._features_padded
             new._features_packed = self._features_packed
-- 
2.43.0


From 48f48ec390d983aa3f664c94f7848ec419ed7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 06/44] fix: sample_pdf on CPU no longer writes past the batch
 when the thread chunks exceed it

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..7f0bc88 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -128,7 +128,7 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
+        std::min(start_batch + batch_elements_per_thread, batch_size));
     start_batch += batch_elements_per_thread;
   }
 
-- 
2.43.0


From 48b37a3524822403341cfdfd22f73e660d467bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 07/44] fix: point splatting gives points between the border
 and half a voxel outside the grid their trilinear weights

---
 .../points_to_volumes/points_to_volumes.cu    | 19 +++++++++++++------
 .../points_to_volumes_cpu.cpp                 | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..0786efc 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -24,6 +24,13 @@ using at::RestrictPtrTraits;
 
 // Explanation of the calculation is in the cpp file.
 
+// SplitFloor writes the floor of location to lower, and returns the rest, which
+// is between 0 and 1 also when location is negative.
+__device__ static float SplitFloor(const float location, float* lower) {
+  *lower = std::floor(location);
+  return location - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static __device__ void EightDirections(T&& t) {
@@ -99,11 +106,11 @@ __global__ void PointsToVolumesForwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
@@ -246,11 +253,11 @@ __global__ void PointsToVolumesBackwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..fec5a8d 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,13 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// SplitFloor writes the floor of location to lower, and returns the rest, which
+// is between 0 and 1 also when location is negative.
+static float SplitFloor(const float location, float* lower) {
+  *lower = std::floor(location);
+  return location - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +136,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +269,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 0f654a51bbbaf0b335675de4af62d9052da01aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 08/44] fix: add_points_features_to_volume_densities_features
 accepts volume_features=None as documented

---
 pytorch3d/ops/points_to_volumes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..efb6f73 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -407,6 +407,11 @@ def add_points_features_to_volume_densities_features(
     if mask is None:
         mask = points_3d.new_ones(1).expand(points_3d.shape[:2])
 
+    if volume_features is None:
+        volume_features = volume_densities.new_zeros(
+            ba_volume, feature_dim, *volume_densities.shape[2:]
+        )
+
     volume_densities, volume_features = _points_to_volumes(
         points_3d,
         points_features,
-- 
2.43.0


From 111c864d40596b1e3ec4beac5bd7bee685882b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 09/44] fix: add_pointclouds_to_volumes leaves the initial
 volumes unchanged

---
 pytorch3d/ops/points_to_volumes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index efb6f73..f88b552 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -283,11 +283,13 @@ def add_pointclouds_to_volumes(
     # convert to the coord frame of the volume
     pcl_3d_local = initial_volumes.world_to_local_coords(pcl_3d)
 
+    # the volumes are modified in place, so work on a copy of the initial ones
+    features = initial_volumes.features()
     features_new, densities_new = add_points_features_to_volume_densities_features(
         points_3d=pcl_3d_local,
         points_features=pcl_feats,
-        volume_features=initial_volumes.features(),
-        volume_densities=initial_volumes.densities(),
+        volume_features=None if features is None else features.clone(),
+        volume_densities=initial_volumes.densities().clone(),
         min_weight=min_weight,
         grid_sizes=initial_volumes.get_grid_sizes(),
         mask=mask,
-- 
2.43.0


From 7ad9a08eef58e807b23e0048fd19a62ffeb6e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 10/44] fix: the Python points-to-volumes reference honours
 align_corners, rescale_features and grids smaller than the padded volume

---
 pytorch3d/ops/points_to_volumes.py | 77 +++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index f88b552..bc95a9d 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -397,6 +397,8 @@ def add_points_features_to_volume_densities_features(
             mask=mask,
             # pyre-fixme[6]: For 8th param expected `LongTensor` but got `Tensor`.
             grid_sizes=grid_sizes,
+            rescale_features=rescale_features,
+            align_corners=align_corners,
         )
 
     if mode == "trilinear":
@@ -446,6 +448,8 @@ def _add_points_features_to_volume_densities_features_python(
     min_weight: float,
     mask: Optional[torch.Tensor],
     grid_sizes: torch.LongTensor,
+    rescale_features: bool,
+    align_corners: bool,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
     Python implementation for add_points_features_to_volume_densities_features.
@@ -476,6 +480,9 @@ def _add_points_features_to_volume_densities_features_python(
             volume_densities_flatten,
             volume_features_flatten,
             grid_sizes,
+            v_shape,
+            align_corners,
+            rescale_features,
             mask=mask,
             min_weight=min_weight,
         )
@@ -486,6 +493,9 @@ def _add_points_features_to_volume_densities_features_python(
             volume_densities_flatten,
             volume_features_flatten,
             grid_sizes,
+            v_shape,
+            align_corners,
+            rescale_features,
             mask=mask,
         )
     else:
@@ -532,12 +542,28 @@ def _check_points_to_volumes_inputs(
         )
 
 
+def _local_to_voxel_coords(
+    points_3d: torch.Tensor, grid_sizes_xyz: torch.Tensor, align_corners: bool
+) -> torch.Tensor:
+    """
+    Convert local coordinates, in the range [-1, 1] inside the volume, to (fractional)
+    voxel indices, following the convention of grid_sample.
+    """
+    sizes = grid_sizes_xyz[:, None].type_as(points_3d)
+    if align_corners:
+        return ((points_3d + 1) * 0.5) * (sizes - 1)
+    return ((points_3d + 1) * 0.5) * sizes - 0.5
+
+
 def _splat_points_to_volumes(
     points_3d: torch.Tensor,
     points_features: torch.Tensor,
     volume_densities: torch.Tensor,
     volume_features: torch.Tensor,
     grid_sizes: torch.LongTensor,
+    volume_shape: torch.Size,
+    align_corners: bool,
+    rescale_features: bool,
     min_weight: float = 1e-4,
     mask: Optional[torch.Tensor] = None,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
@@ -560,8 +586,11 @@ def _splat_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
-            Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
+        volume_shape: The spatial shape (D, H, W) of the non-flattened (padded)
+            volumes, whose product is N_voxels.
+        align_corners: as for grid_sample.
+        rescale_features: If False, output features are just the sum of input and
+            added points. If True, they are averaged.
         min_weight: A scalar controlling the lowest possible total per-voxel
             weight used to normalize the features accumulated in a voxel.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
@@ -593,10 +622,8 @@ def _splat_points_to_volumes(
     grid_sizes_xyz = grid_sizes[:, [2, 1, 0]]
 
     # Convert from points_3d in the range [-1, 1] to
-    # indices in the volume grid in the range [0, grid_sizes_xyz-1]
-    points_3d_indices = ((points_3d + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
-    )
+    # indices in the volume grid
+    points_3d_indices = _local_to_voxel_coords(points_3d, grid_sizes_xyz, align_corners)
     XYZ = points_3d_indices.floor().long()
     rXYZ = points_3d_indices - XYZ.type_as(points_3d)  # remainder of floor
 
@@ -635,9 +662,7 @@ def _splat_points_to_volumes(
                 ).long()
 
                 # linearized indices into the volume
-                idx = (Z_ * grid_sizes[:, None, 1:2] + Y_) * grid_sizes[
-                    :, None, 2:3
-                ] + X_
+                idx = (Z_ * volume_shape[1] + Y_) * volume_shape[2] + X_
 
                 # out-of-bounds features added to a random voxel idx with weight=0.
                 idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -661,10 +686,11 @@ def _splat_points_to_volumes(
                 # volume_features of shape (minibatch, feature_dim, n_voxels)
                 volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        min_weight
-    )
+    if rescale_features:
+        # divide each feature by the total weight of the votes
+        volume_features = volume_features / volume_densities.view(
+            ba, 1, n_voxels
+        ).clamp(min_weight)
 
     return volume_features, volume_densities
 
@@ -675,6 +701,9 @@ def _round_points_to_volumes(
     volume_densities: torch.Tensor,
     volume_features: torch.Tensor,
     grid_sizes: torch.LongTensor,
+    volume_shape: torch.Size,
+    align_corners: bool,
+    rescale_features: bool,
     mask: Optional[torch.Tensor] = None,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
@@ -697,8 +726,11 @@ def _round_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
-            Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
+        volume_shape: The spatial shape (D, H, W) of the non-flattened (padded)
+            volumes, whose product is N_voxels.
+        align_corners: as for grid_sample.
+        rescale_features: If False, output features are just the sum of input and
+            added points. If True, they are averaged.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
             are going to be converted to the resulting volume.
             Set to `None` if all points are valid.
@@ -726,9 +758,7 @@ def _round_points_to_volumes(
     # round the coordinates to nearest integer
     # grid_sizes is of the form (minibatch, depth-height-width)
     grid_sizes_xyz = grid_sizes[:, [2, 1, 0]]
-    XYZ = ((points_3d.detach() + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
-    )
+    XYZ = _local_to_voxel_coords(points_3d.detach(), grid_sizes_xyz, align_corners)
     XYZ = torch.round(XYZ).long()
 
     # split into separate coordinate vectors
@@ -753,7 +783,7 @@ def _round_points_to_volumes(
     rand_idx = valid.new_zeros(X.shape).random_(0, n_voxels)
 
     # linearized indices into the volume
-    idx = (Z * grid_sizes[:, None, 1:2] + Y) * grid_sizes[:, None, 2:3] + X
+    idx = (Z * volume_shape[1] + Y) * volume_shape[2] + X
 
     # out-of-bounds features added to a random voxel idx with weight=0.
     idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -770,9 +800,10 @@ def _round_points_to_volumes(
     # volume_features of shape (minibatch, feature_dim, n_voxels)
     volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        1.0
-    )
+    if rescale_features:
+        # divide each feature by the total weight of the votes
+        volume_features = volume_features / volume_densities.view(
+            ba, 1, n_voxels
+        ).clamp(1.0)
 
     return volume_features, volume_densities
-- 
2.43.0


From 08fea1c6f3272b39fb0a331c0e101542c9e4dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 11/44] fix: indexing Volumes keeps align_corners

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From a89e214ab33c854c9a55b4cfbc6f6fa19ceb4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 12/44] fix: coordinate grid of heterogeneous volumes with
 align_corners=False

---
 pytorch3d/structures/volumes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..5bcf2c7 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -851,10 +851,12 @@ class VolumeLocator:
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
         # get grid sizes relative to the maximal volume size
+        # (measured between the locations -1 and 1)
+        sizes_offset = 1 if self._align_corners else 0
         grid_sizes_relative = (
             torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+            - sizes_offset
+        ) / (grid_sizes - sizes_offset).float()
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From 241d189ec3506027529679da573c48eb37adf5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 13/44] fix: Volumes.update_padded accepts padded tensors for
 heterogeneous batches

---
 pytorch3d/structures/volumes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 5bcf2c7..c1dd33f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -387,11 +387,11 @@ class Volumes:
             Volumes with updated features and densities
         """
         new = copy.copy(self)
-        new._set_densities(new_densities)
+        new._set_densities_features("densities", new_densities, allow_padded=True)
         if new_features is None:
             new._features = None
         else:
-            new._set_features(new_features)
+            new._set_densities_features("features", new_features, allow_padded=True)
         return new
 
     def _set_features(self, features: _TensorBatch) -> None:
@@ -400,7 +400,9 @@ class Volumes:
     def _set_densities(self, densities: _TensorBatch) -> None:
         self._set_densities_features("densities", densities)
 
-    def _set_densities_features(self, var_name: str, x: _TensorBatch) -> None:
+    def _set_densities_features(
+        self, var_name: str, x: _TensorBatch, allow_padded: bool = False
+    ) -> None:
         x_tensor, grid_sizes = self._convert_densities_features_to_tensor(x, var_name)
         if x_tensor.device != self.device:
             raise ValueError(
@@ -412,7 +414,15 @@ class Volumes:
                 f"(minibatch, {var_name}_dim, height, width, depth)"
             )
 
-        if not (
+        # a padded tensor has the size of the largest grid of the batch
+        is_padded = (
+            allow_padded
+            and torch.is_tensor(x)
+            and x_tensor.shape[0] == len(self)
+            and x_tensor.shape[2:] == self._densities.shape[2:]
+        )
+
+        if not is_padded and not (
             (self.get_grid_sizes().shape == grid_sizes.shape)
             and torch.allclose(self.get_grid_sizes(), grid_sizes)
         ):
-- 
2.43.0


From 5a18ea06da0909e85cbb27a8cc1aceb81b331def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 14/44] fix: cull faces outside the frustum by the coordinate
 of each plane

_get_culled_faces indexed the vertices of a face with the axis, so that it compared
the x, y and z coordinates of one vertex with the plane; visible faces disappeared
with cull_to_frustum=True.
---
 pytorch3d/renderer/mesh/clip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..08f5498 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -187,9 +187,9 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
-- 
2.43.0


From 1002989aa3a2ef9a230e5a91db8e5cd4bf58ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 15/44] fix: do not cull faces crossing the near plane by their
 projected vertices

The perspective projection of a vertex behind the camera is mirrored, so such a face
can be visible although all of its projected vertices are on one side of the frustum.
---
 pytorch3d/renderer/mesh/clip.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 08f5498..aa701f1 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -376,6 +376,11 @@ def clip_faces(
 
         # (F) dim tensor containing the number of clipped vertices in each triangle
         faces_num_clipped_verts = faces_clipped_verts.sum(1)
+
+        # With a perspective camera, the projections of vertices behind the clipping plane
+        # do not tell where the visible part of the face is, so don't cull based on them.
+        if perspective_correct:
+            faces_culled &= faces_num_clipped_verts == 0
     else:
         faces_num_clipped_verts = torch.zeros([F], device=device)
 
-- 
2.43.0


From d2af5e99295b590941b0cf5acd6d26205c5731ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 16/44] fix: clip batches whose last mesh is empty

mesh_to_face_first_idx of an empty mesh at the end of the batch is F, which was out of range.
---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index aa701f1..70492bb 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -450,10 +450,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
+    # (the first index of empty meshes at the end of the batch is F)
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From 5603506066ec2d81f4269b5dd4d774f95faf9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 17/44] fix: cull to the NDC range of non-square images

The longer side of the image extends beyond [-1, 1].
---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..9c65598 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The NDC range is [-1, 1] along the shorter image side only.
+        H, W = im_size
+        range_x, range_y = max(W / H, 1.0), max(H / W, 1.0)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-range_x,
+            right=range_x,
+            top=-range_y,
+            bottom=range_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +439,13 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The NDC range is [-1, 1] along the shorter image side only.
+        range_x, range_y = max(W / H, 1.0), max(H / W, 1.0)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-range_x,
+            right=range_x,
+            top=-range_y,
+            bottom=range_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From c6391862fc961f22b421dada62389f48e61c246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 18/44] fix: rasterize_meshes_python merges the two halves of
 clipped faces

The neighbour indices of clip_faces were not used, and the farther half was added as well.
---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index 9c65598..c37daf1 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -456,6 +456,7 @@ def rasterize_meshes_python(  # noqa: C901
         faces_verts = clipped_faces.face_verts
         mesh_to_face_first_idx = clipped_faces.mesh_to_face_first_idx
         num_faces_per_mesh = clipped_faces.num_faces_per_mesh
+        clipped_faces_neighbor_idx = clipped_faces.clipped_faces_neighbor_idx
 
     # Initialize output tensors.
     face_idxs = torch.full(
@@ -586,9 +587,11 @@ def rasterize_meshes_python(  # noqa: C901
                         ]
                         top_k_idx = top_k_idx[0] if len(top_k_idx) > 0 else -1
 
-                    if top_k_idx != -1 and dist < top_k_points[top_k_idx][3]:
-                        # Overwrite the neighbor with current face info
-                        top_k_points[top_k_idx] = (pz, f, bary, dist, inside)
+                    if top_k_idx != -1:
+                        # Only the closest of the two neighbors is kept
+                        if dist < top_k_points[top_k_idx][3]:
+                            # Overwrite the neighbor with current face info
+                            top_k_points[top_k_idx] = (pz, f, bary, dist, inside)
                     else:
                         # Handle as a normal face
                         top_k_points.append((pz, f, bary, dist, inside))
-- 
2.43.0


From 29f15552c7ea59978d82927a1f389b7ddabd6784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 19/44] fix: VolumeSampler samples volumes of different sizes
 without their padding

The local coordinates of a volume refer to its own grid, but grid_sample was applied to the
padded grid, so all but the largest volumes of a heterogeneous batch were sampled elsewhere.
---
 pytorch3d/renderer/implicit/renderer.py | 43 +++++++++++++++++--------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..7b88b04 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -302,6 +302,33 @@ class VolumeSampler(torch.nn.Module):
         directions_transform = Transform3d(matrix=directions_transform_matrix)
         return directions_transform
 
+    def _grid_sample(self, values: torch.Tensor, points: torch.Tensor) -> torch.Tensor:
+        """
+        Sample the padded `values` of shape `(minibatch, dim, D, H, W)` at `points`
+        expressed in the local coordinates of the individual volumes.
+        """
+
+        def sample(values_, points_):
+            return torch.nn.functional.grid_sample(
+                values_,
+                points_,
+                mode=self._sample_mode,
+                padding_mode=self._padding_mode,
+                align_corners=self._volumes.get_align_corners(),
+            )
+
+        grid_sizes = self._volumes.get_grid_sizes().tolist()
+        if all(grid_size == list(values.shape[2:]) for grid_size in grid_sizes):
+            return sample(values, points)
+        # The local coordinates are relative to the size of each volume and not to
+        # the size of the padded tensor, hence leave out the padding.
+        return torch.cat(
+            [
+                sample(values[i : i + 1, :, :de, :he, :wi], points[i : i + 1])
+                for i, (de, he, wi) in enumerate(grid_sizes)
+            ]
+        )
+
     def forward(
         self, ray_bundle: Union[RayBundle, HeterogeneousRayBundle], **kwargs
     ) -> Tuple[torch.Tensor, torch.Tensor]:
@@ -381,13 +408,7 @@ class VolumeSampler(torch.nn.Module):
         )
 
         # run the grid sampler on the volumes densities
-        rays_densities = torch.nn.functional.grid_sample(
-            volumes_densities,
-            rays_points_local_flat,
-            mode=self._sample_mode,
-            padding_mode=self._padding_mode,
-            align_corners=self._volumes.get_align_corners(),
-        )
+        rays_densities = self._grid_sample(volumes_densities, rays_points_local_flat)
 
         # permute the dimensions & reshape densities after sampling
         rays_densities = rays_densities.permute(0, 2, 3, 4, 1).view(
@@ -399,13 +420,7 @@ class VolumeSampler(torch.nn.Module):
             dim_feature = 0
             _, rays_features = rays_densities.split([dim_density, dim_feature], dim=-1)
         else:
-            rays_features = torch.nn.functional.grid_sample(
-                volumes_features,
-                rays_points_local_flat,
-                mode=self._sample_mode,
-                padding_mode=self._padding_mode,
-                align_corners=self._volumes.get_align_corners(),
-            )
+            rays_features = self._grid_sample(volumes_features, rays_points_local_flat)
 
             # permute the dimensions & reshape features after sampling
             rays_features = rays_features.permute(0, 2, 3, 4, 1).view(
-- 
2.43.0


From c2443e5c067eb0fda12da0ddd419d72c254e77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 20/44] fix: marching cubes keeps the faces after a degenerate
 one

The corners collected for a degenerate triangle (voxels at the iso-level) were not
cleared, so that all later triangles of the cell were dropped, leaving holes.
---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From 282cd1bbd54c876224728910e31331245a8b5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 21/44] fix: indexing transforms keeps the dtype and works for
 RotateAxisAngle

Translate, Scale and Rotate were rebuilt in float32, and RotateAxisAngle was given a
rotation matrix for its angle.
---
 pytorch3d/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..b30647d 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,7 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From f28044d2eedac8e69747f1d45fb626730c7993d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 22/44] fix: se3_log_map uses its eps for the V matrix

so that it inverts se3_exp_map with the same threshold.
---
 pytorch3d/transforms/se3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/transforms/se3.py b/pytorch3d/transforms/se3.py
index dab69d0..b672eb6 100644
--- a/pytorch3d/transforms/se3.py
+++ b/pytorch3d/transforms/se3.py
@@ -174,7 +174,7 @@ def se3_log_map(
 
     # log_translation is V^-1 @ T
     T = transform[:, 3, :3]
-    V = _se3_V_matrix(*_get_se3_V_input(log_rotation), eps=eps)
+    V = _se3_V_matrix(*_get_se3_V_input(log_rotation, eps=eps), eps=eps)
     log_translation = torch.linalg.solve(V, T[:, :, None])[:, :, 0]
 
     return torch.cat((log_translation, log_rotation), dim=1)
-- 
2.43.0


From 66ae7a59b9b0d8f95664885cdd20d485a901843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 23/44] fix: opencv_from_cameras_projection reads screen-space
 cameras and K

---
 pytorch3d/renderer/camera_conversions.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/renderer/camera_conversions.py b/pytorch3d/renderer/camera_conversions.py
index 6c5b2cb..21fe4ae 100644
--- a/pytorch3d/renderer/camera_conversions.py
+++ b/pytorch3d/renderer/camera_conversions.py
@@ -71,8 +71,10 @@ def _opencv_from_cameras_projection(
     # pyre-fixme[29]: `Union[(self: TensorBase, memory_format:
     #  Optional[memory_format] = ...) -> Tensor, Tensor, Module]` is not a function.
     T_pytorch3d = cameras.T.clone()
-    focal_pytorch3d = cameras.focal_length
-    p0_pytorch3d = cameras.principal_point
+    # The intrinsics are read off the projection, as they may be given by `cameras.K`.
+    K_pytorch3d = cameras.get_projection_transform().get_matrix()
+    focal_length = torch.stack([K_pytorch3d[:, 0, 0], K_pytorch3d[:, 1, 1]], dim=-1)
+    principal_point = K_pytorch3d[:, 2, :2]
     T_pytorch3d[:, :2] *= -1
     R_pytorch3d[:, :, :2] *= -1
     tvec = T_pytorch3d
@@ -81,14 +83,14 @@ def _opencv_from_cameras_projection(
     # Retype the image_size correctly and flip to width, height.
     image_size_wh = image_size.to(R).flip(dims=(1,))
 
-    # NDC to screen conversion.
-    scale = image_size_wh.to(R).min(dim=1, keepdim=True)[0] / 2.0
-    scale = scale.expand(-1, 2)
-    c0 = image_size_wh / 2.0
+    if cameras.in_ndc():
+        # NDC to screen conversion.
+        scale = image_size_wh.to(R).min(dim=1, keepdim=True)[0] / 2.0
+        scale = scale.expand(-1, 2)
+        c0 = image_size_wh / 2.0
 
-    # pyrefly: ignore [unsupported-operation]
-    principal_point = -p0_pytorch3d * scale + c0
-    focal_length = focal_pytorch3d * scale
+        principal_point = -principal_point * scale + c0
+        focal_length = focal_length * scale
 
     camera_matrix = torch.zeros_like(R)
     camera_matrix[:, :2, 2] = principal_point
-- 
2.43.0


From b6c07c954ace664dd9f09a03c8ee144cf462531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 24/44] fix: FoVPerspectiveCameras.unproject_points honours
 parameters given with the call

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..3393522 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
-- 
2.43.0


From d96a9f4c400341c48ea175b927b3f882bc0a0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 25/44] fix: FoVOrthographicCameras.unproject_points accepts
 unbatched points

---
 pytorch3d/renderer/cameras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 3393522..78be05f 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -976,7 +976,7 @@ class FoVOrthographicCameras(CamerasBase):
         else:
             # we have to obtain the scaled depth first
             K = self.get_projection_transform(**kwargs).get_matrix()
-            unsqueeze_shape = [1] * K.dim()
+            unsqueeze_shape = [1] * xy_depth.dim()
             unsqueeze_shape[0] = K.shape[0]
             mid_z = K[:, 3, 2].reshape(unsqueeze_shape)
             scale_z = K[:, 2, 2].reshape(unsqueeze_shape)
-- 
2.43.0


From a787a6859dd3b3e5aa42de036b04f3d1a85546f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 26/44] fix: unproject_points(from_ndc=True) honours image_size
 and intrinsics given with the call

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 78be05f..737a095 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1174,7 +1174,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1414,7 +1414,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
-- 
2.43.0


From f270afd786c5fe445408e9c512a4d1ae46ab8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 27/44] fix: focal lengths of shape (N, 1) given with the call

---
 pytorch3d/renderer/cameras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 737a095..3b736e0 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1529,8 +1529,10 @@ def _get_sfm_calibration_matrix(
     if not torch.is_tensor(focal_length):
         focal_length = torch.tensor(focal_length, device=device)
 
-    if focal_length.ndim in (0, 1) or focal_length.shape[1] == 1:
+    if focal_length.ndim in (0, 1):
         fx = fy = focal_length
+    elif focal_length.shape[1] == 1:
+        fx = fy = focal_length[:, 0]
     else:
         fx, fy = focal_length.unbind(1)
 
-- 
2.43.0


From 8d11c74cb703cacfc82eaafdac3a297b6da7d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 28/44] fix: z gradient of the second vertex in the backward of
 face normals

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..42f162e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -178,7 +178,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From ef4057f7b47e4899bd1596fa958b74551511caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 29/44] fix: alpha gradients of norm_weighted_sum where the
 weight sum is below its floor

---
 pytorch3d/csrc/compositing/norm_weighted_sum.cu      | 2 ++
 pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum.cu b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
index e21617d..69c14da 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum.cu
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
@@ -125,7 +125,9 @@ __global__ void weightedSumNormCudaBackwardKernel(
     }
 
     if (sum_alpha < kEpsilon) {
+      // the normalizer is constant here, so alphas only act as weights
       sum_alpha = kEpsilon;
+      sum_alphafs = 0.;
     }
 
     // Iterate again through the closest K points for this pixel to calculate
diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
index 840ef3d..e8e5761 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
@@ -114,7 +114,9 @@ std::tuple<torch::Tensor, torch::Tensor> weightedSumNormCpuBackward(
           }
 
           if (t_alpha < kEps) {
+            // the normalizer is constant here, so alphas only act as weights
             t_alpha = kEps;
+            t_alphafs = 0.;
           }
 
           // Iterate through the closest K points for this pixel ordered by z
-- 
2.43.0


From 1e9c66808eb5d26270f618f25ac6ac11e5dc33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 30/44] fix: alpha_composite gradient of opaque points

---
 pytorch3d/csrc/compositing/alpha_composite.cu | 25 ++++++++-----------
 .../csrc/compositing/alpha_composite_cpu.cpp  | 19 +++++++-------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/pytorch3d/csrc/compositing/alpha_composite.cu b/pytorch3d/csrc/compositing/alpha_composite.cu
index 2bfe79d..3924b1e 100644
--- a/pytorch3d/csrc/compositing/alpha_composite.cu
+++ b/pytorch3d/csrc/compositing/alpha_composite.cu
@@ -17,8 +17,6 @@
 #include <stdio.h>
 #include <vector>
 
-__constant__ const float kEpsilon = 1e-9;
-
 // TODO(gkioxari) support all data types once AtomicAdd supports doubles.
 // Currently, support is for floats only.
 __global__ void alphaCompositeCudaForwardKernel(
@@ -111,29 +109,28 @@ __global__ void alphaCompositeCudaBackwardKernel(
       // TODO(gkioxari) It might be more efficient to have threads write in a
       // local variable, and move atomicAdd outside of the loop such that
       // atomicAdd is executed once per thread.
-      atomicAdd(
-          &grad_alphas[batch][k][j][i],
-          cum_alpha * features[ch][n_idx] * grad_outputs[batch][ch][j][i]);
       atomicAdd(
           &grad_features[ch][n_idx],
           cum_alpha * alpha * grad_outputs[batch][ch][j][i]);
 
-      // Iterate over all (K-1) nearest points to update gradient
-      for (int t = 0; t < k; ++t) {
+      // Composite the points behind this one: all of them are attenuated by
+      // (1 - alpha).
+      float behind = 0.;
+      float t_alpha = 1.;
+      for (int t = k + 1; t < points_idx.size(1); ++t) {
         int t_idx = points_idx[batch][t][j][i];
         // Sentinel value is -1, indicating no point overlaps this pixel
         if (t_idx < 0) {
           continue;
         }
         float alpha_tvalue = alphas[batch][t][j][i];
-        // TODO(gkioxari) It might be more efficient to have threads write in a
-        // local variable, and move atomicAdd outside of the loop such that
-        // atomicAdd is executed once per thread.
-        atomicAdd(
-            &grad_alphas[batch][t][j][i],
-            -grad_outputs[batch][ch][j][i] * features[ch][n_idx] * cum_alpha *
-                alpha / (1 - alpha_tvalue + kEpsilon));
+        behind += t_alpha * alpha_tvalue * features[ch][t_idx];
+        t_alpha = t_alpha * (1 - alpha_tvalue);
       }
+      atomicAdd(
+          &grad_alphas[batch][k][j][i],
+          cum_alpha * (features[ch][n_idx] - behind) *
+              grad_outputs[batch][ch][j][i]);
 
       cum_alpha = cum_alpha * (1 - alphas[batch][k][j][i]);
     }
diff --git a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
index 41bc0ec..06880ca 100644
--- a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
+++ b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
@@ -11,9 +11,6 @@
 #include <cmath>
 #include <vector>
 
-// Epsilon float
-const float kEps = 1e-9;
-
 torch::Tensor alphaCompositeCpuForward(
     const torch::Tensor& features,
     const torch::Tensor& alphas,
@@ -96,23 +93,25 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
               continue;
             }
             float alpha = alphas_a[b][k][j][i];
-            grad_alphas_a[b][k][j][i] +=
-                grad_outputs_a[b][c][j][i] * features_a[c][n_idx] * cum_alpha;
             grad_features_a[c][n_idx] +=
                 grad_outputs_a[b][c][j][i] * cum_alpha * alpha;
 
-            // Iterate over all (K-1) nearer points to update gradient
-            for (int t = 0; t < k; t++) {
+            // Composite the points behind this one: all of them are
+            // attenuated by (1 - alpha).
+            float behind = 0.;
+            float t_alpha = 1.;
+            for (int t = k + 1; t < K; ++t) {
               int64_t t_idx = points_idx_a[b][t][j][i];
               // Sentinal value is -1, indicating no point overlaps this pixel
               if (t_idx < 0) {
                 continue;
               }
               float alpha_tvalue = alphas_a[b][t][j][i];
-              grad_alphas_a[b][t][j][i] -= grad_outputs_a[b][c][j][i] *
-                  features_a[c][n_idx] * cum_alpha * alpha /
-                  (1 - alpha_tvalue + kEps);
+              behind += t_alpha * alpha_tvalue * features_a[c][t_idx];
+              t_alpha = t_alpha * (1 - alpha_tvalue);
             }
+            grad_alphas_a[b][k][j][i] += grad_outputs_a[b][c][j][i] *
+                cum_alpha * (features_a[c][n_idx] - behind);
 
             cum_alpha = cum_alpha * (1 - alpha);
           }
-- 
2.43.0


From 214fd6fd52d4b18d4ba0d91cd9e9f8f38ff7f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 31/44] fix: TexturesUV with several maps per mesh: batches of
 different sizes, one map, align_corners=False

---
 pytorch3d/renderer/mesh/textures.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..a20f102 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1146,10 +1146,24 @@ class TexturesUV(TexturesBase):
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
             # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return [
+                maps_ids[: len(faces_uvs)]
+                for maps_ids, faces_uvs in zip(
+                    self._maps_ids_padded, self.faces_uvs_list()
+                )
+            ]
         else:
             return None
 
+    def _normalize_maps_ids(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        Map the integers 0 .. M-1 to the locations between -1 and 1 at which
+        grid_sample finds the centers of the M maps.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     # Currently only the padded maps are used.
     def maps_padded(self) -> torch.Tensor:
         return self._maps_padded
@@ -1282,14 +1296,13 @@ class TexturesUV(TexturesBase):
             pix_to_face[mask] = 0
 
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
+                torch.cat(list(self.maps_ids_list()))
                 .gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
 
-            # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._normalize_maps_ids(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1351,7 +1364,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._normalize_maps_ids(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From a5ff06cd4507a7f73830e1df70c8a30d70e40771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 32/44] fix: indexing textures with an int keeps the counts per
 mesh a list

---
 pytorch3d/renderer/mesh/textures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index a20f102..1beeb6b 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -274,7 +274,9 @@ class TexturesBase:
                 t = getattr(self, p)
                 if callable(t):
                     t = t()  # class method
-                new_props[p] = t[index] if t is not None else None
+                value = t[index] if t is not None else None
+                # counts per batch element stay lists
+                new_props[p] = [value] if isinstance(value, int) else value
         elif isinstance(index, list):
             # pyrefly: ignore [bad-assignment]
             index = torch.tensor(index)
-- 
2.43.0


From 1f7fec8d948eb64009702109ec17edec45082aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 33/44] fix: cubify accepts grids with a single voxel along an
 axis

---
 pytorch3d/ops/cubify.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index b271d82..e41f8a9 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -10,7 +10,6 @@
 from typing import Optional
 
 import torch
-import torch.nn.functional as F
 from pytorch3d.common.compat import meshgrid_ij
 from pytorch3d.structures import Meshes
 
@@ -145,18 +144,14 @@ def cubify(
         device=device,
     )
 
-    wx = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 1, 2)
-    wy = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 2, 1)
-    wz = torch.tensor([0.5, 0.5], device=device).view(1, 1, 2, 1, 1)
-
     voxelt = voxels.ge(thresh).float()
     # N x 1 x D x H x W
     voxelt = voxelt.view(N, 1, D, H, W)
 
-    # N x 1 x (D-1) x (H-1) x (W-1)
-    voxelt_x = F.conv3d(voxelt, wx).gt(0.5).float()
-    voxelt_y = F.conv3d(voxelt, wy).gt(0.5).float()
-    voxelt_z = F.conv3d(voxelt, wz).gt(0.5).float()
+    # neighbours which are both occupied, along each axis (possibly of size 1)
+    voxelt_x = voxelt[..., 1:] * voxelt[..., :-1]
+    voxelt_y = voxelt[..., 1:, :] * voxelt[..., :-1, :]
+    voxelt_z = voxelt[..., 1:, :, :] * voxelt[..., :-1, :, :]
 
     # 12 x N x 1 x D x H x W
     faces_idx = torch.ones((cube_faces.size(0), N, 1, D, H, W), device=device)
-- 
2.43.0


From 36d0415018cf158395c3501ca437e510816b462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 34/44] fix: taubin_smoothing returned nan for vertices without
 edges

---
 pytorch3d/ops/mesh_filtering.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/ops/mesh_filtering.py b/pytorch3d/ops/mesh_filtering.py
index d8f2943..48b01eb 100644
--- a/pytorch3d/ops/mesh_filtering.py
+++ b/pytorch3d/ops/mesh_filtering.py
@@ -47,13 +47,14 @@ def taubin_smoothing(
     edges = meshes.edges_packed()  # E x 3
 
     for _ in range(num_iter):
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - lambd) * verts + lambd * torch.mm(L, verts) / total_weight
-
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - mu) * verts + mu * torch.mm(L, verts) / total_weight
+        for weight in (lambd, mu):
+            L = norm_laplacian(verts, edges)
+            total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
+            # vertices which are not on any edge have no neighbors and do not move
+            isolated = total_weight == 0
+            neighbors = torch.mm(L, verts) / total_weight.masked_fill(isolated, 1.0)
+            neighbors = torch.where(isolated, verts, neighbors)
+            verts = (1 - weight) * verts + weight * neighbors
 
     verts_list = struct_utils.packed_to_list(
         verts, meshes.num_verts_per_mesh().tolist()
-- 
2.43.0


From 7abe8c71263d26d99086f64acb0d35fd2c30c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 35/44] fix: HarmonicEmbedding accepts empty batches

---
 pytorch3d/renderer/implicit/harmonic_embedding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/harmonic_embedding.py b/pytorch3d/renderer/implicit/harmonic_embedding.py
index ee44f23..4ee741d 100644
--- a/pytorch3d/renderer/implicit/harmonic_embedding.py
+++ b/pytorch3d/renderer/implicit/harmonic_embedding.py
@@ -151,7 +151,7 @@ class HarmonicEmbedding(torch.nn.Module):
             # [..., 2, dim, n_harmonic_functions]
             embed = embed * exp_var[..., None, :, :]
 
-        embed = embed.reshape(*x.shape[:-1], -1)
+        embed = embed.flatten(start_dim=-3)
 
         if self.append_input:
             return torch.cat([embed, x], dim=-1)
-- 
2.43.0


From 088573d9144c77ba37987f1d83b16e7a37642199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:37 +0000
Subject: [PATCH 36/44] fix: phong and flat shading with one material per batch
 element

---
 pytorch3d/renderer/mesh/shading.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..fc627e1 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,8 +39,15 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    if normals.dim() > 2:
+        # Reshape from (N, C) to be compatible with (N, ..., C)
+        idx = (slice(None),) + (None,) * (normals.dim() - 2)
+        material_diffuse = material_diffuse[idx]
+        material_specular = material_specular[idx]
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From 64374f16906d2fec7ecc9b3640a792d4d866ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 37/44] fix: setting one element of a broadcast property
 changed every element

---
 pytorch3d/renderer/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..2941a56 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,7 +72,11 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
-        self.class_object.__dict__[name][self.index] = value
+        # The attribute may be a broadcasted view in which all batch elements share
+        # the same memory, so update a copy.
+        v = v.clone()
+        v[self.index] = value
+        setattr(self.class_object, name, v)
 
     # pyrefly: ignore [bad-override]
     def __getattr__(self, name: str):
-- 
2.43.0


From ede30ec26ea4f4286e69fb0837842e92a26d1cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:45 +0000
Subject: [PATCH 38/44] fix: splatter took the occlusion layer of a splat from
 the transposed direction

---
 pytorch3d/renderer/splatter_blend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..3591110 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -538,6 +538,12 @@ class SplatterBlender(torch.nn.Module):
             pixel_coords_screen[..., 2:3].squeeze(dim=-1)
         )  # (N, H, W, 9)
 
+        # The nine directions of occlusion_layers vary fastest along w, those of the
+        # splats (see _precompute) along h, so bring them to the order of the splats.
+        occlusion_layers = (
+            occlusion_layers.unflatten(-1, (3, 3)).transpose(-1, -2).flatten(-2)
+        )
+
         splat_colors_and_weights = _compute_splatting_colors_and_weights(
             pixel_coords_screen,
             colors,
-- 
2.43.0


From c620ada12707ab56eee8f38b1eac69aabcd99936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:04 +0000
Subject: [PATCH 39/44] fix: vert_align(return_packed=True) kept the padding of
 point clouds

---
 pytorch3d/ops/vert_align.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..e6cc538 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -96,12 +96,13 @@ def vert_align(
     if return_packed:
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
+        idx = None
         if hasattr(verts, "verts_padded_to_packed_idx"):
-            idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
-            )
+            idx = verts.verts_padded_to_packed_idx()
+        elif hasattr(verts, "padded_to_packed_idx"):
+            idx = verts.padded_to_packed_idx()
+        if idx is not None:
+            idx = idx.view(-1, 1).expand(-1, feats_sampled.shape[-1])
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
     return feats_sampled
-- 
2.43.0


From fb38c01c3aad26dc90127cbc9def8d26c158e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:04 +0000
Subject: [PATCH 40/44] fix: sample_points_from_meshes with textures raised for
 batches with empty meshes

---
 pytorch3d/ops/sample_points_from_meshes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..c2753ae 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,11 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # The slots of empty meshes are marked as background and get zeros.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples, 1, 1), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]  # NxSx1x1
+        bary = w0.new_zeros((num_meshes, num_samples, 1, 1, 3))  # NxSx1x1x3
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
-- 
2.43.0


From e5c2df484b24c451fa597b265b92bbdd9a1f7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 41/44] fix: cropping a frame rescaled the box the wrong way
 for depth maps of another size

---
 pytorch3d/implicitron/dataset/frame_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..acde6f6 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -300,8 +300,9 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
+                # pyrefly: ignore [bad-argument-type]
                 tuple(depth_map.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_map = crop_around_box(
                 depth_map,
@@ -315,8 +316,9 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
+                # pyrefly: ignore [bad-argument-type]
                 tuple(depth_mask.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_mask = crop_around_box(
                 depth_mask,
-- 
2.43.0


From e36d5df8fd018b4534bb1c378c51778e7a085457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 42/44] fix: rescale_bbox raised for an original resolution
 given as a tensor

---
 pytorch3d/implicitron/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/utils.py b/pytorch3d/implicitron/dataset/utils.py
index c8c9726..6b5f6a7 100644
--- a/pytorch3d/implicitron/dataset/utils.py
+++ b/pytorch3d/implicitron/dataset/utils.py
@@ -190,7 +190,7 @@ def rescale_bbox(
     new_res: Union[Tuple[int, int], torch.LongTensor],
 ) -> torch.Tensor:
     assert bbox is not None
-    assert np.prod(orig_res) > 1e-8
+    assert orig_res[0] * orig_res[1] > 1e-8
     # average ratio of dimensions
     # pyre-ignore
     rel_size = (new_res[0] / orig_res[0] + new_res[1] / orig_res[1]) / 2.0
-- 
2.43.0


From 051de664aa16fb356929efba0188695a4fb0bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:18 +0000
Subject: [PATCH 43/44] fix: max pooling over views mixed views and points and
 let masked views win

The weights have no feature dimension, so that they were broadcast against the wrong axes (or raised), and features
below zero lost against masked views.
---
 .../implicitron/models/view_pooler/feature_aggregator.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..8628d77 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -685,6 +685,8 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
-    big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
+    w = w[..., None]
+    # exceeds any feature, so that masked views never win
+    big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From 249d59db5858ac07372e0658b30b28040440d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 44/44] fix: depth shaders with one far plane per camera

zfar of FoV cameras has one value per camera, which raised or was broadcast along the faces of a pixel.
---
 pytorch3d/renderer/mesh/shader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..55a0c4e 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -395,9 +395,12 @@ class HardDepthShader(ShaderBase):
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         mask = fragments.pix_to_face[..., 0:1] < 0
 
-        zbuf = fragments.zbuf[..., 0:1].clone()
-        zbuf[mask] = zfar
-        return zbuf
+        if torch.is_tensor(zfar):
+            # one value for all images or one per image
+            zfar = zfar.reshape(-1, 1, 1, 1)
+
+        zbuf = fragments.zbuf[..., 0:1]
+        return torch.where(mask, zfar, zbuf)
 
 
 class SoftDepthShader(ShaderBase):
@@ -427,6 +430,9 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar):
+            # one value for all images or one per image
+            zfar = zfar.reshape(-1, 1, 1, 1)
 
         # Sigmoid probability map based on the distance of the pixel to the face.
         prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
-- 
2.43.0

