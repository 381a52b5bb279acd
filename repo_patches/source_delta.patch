From 15c1f5215ff54020d91dcc914d3a969168bde22a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 01/64] fix: clip grid cell indices to the last cell when
 computing keys

---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 5ed51f3..024a6fa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -43,7 +43,7 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.cast(cell_ind, tf.int32)
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
-      num_cells)
+      num_cells - 1)
   cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
   keys = point_cloud._batch_ids * cell_multiplier[0] + \
-- 
2.43.0


From 3351674294f25d6b65b9a21dfc6970984816c3f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 02/64] fix: clip the searched cells to the last cell of the
 grid

---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 024a6fa..a116daa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -158,7 +158,7 @@ def find_neighbors_tf(grid,
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
   # find neighbors using fast 2D grid datastructure
   neighbor_points = grid._sorted_points
   neighbor_batch_ids = grid._sorted_batch_ids
@@ -185,7 +185,7 @@ def find_neighbors_tf(grid,
     # clip to range between 0 and max num cells
     adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
     # get min and max point ids of the adjacent cells
     adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
     adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-- 
2.43.0


From e97e577edd26f784d76827763accc575ba63c359 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 03/64] fix: stack the scalar neighborhood ranges of the
 neighbor search

---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index a116daa..b99d151 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -207,7 +207,7 @@ def find_neighbors_tf(grid,
     center_neigh_ranges.append(cur_neigh_range)
 
   neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
+  center_neigh_ranges = tf.stack(center_neigh_ranges, axis=0)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From 9fa708b28d0de3ae6c580fb0df480613b29e292f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 04/64] fix: locate neighbor search centers with the cell sizes
 of the grid

---
 pylib/pc/custom_ops/custom_ops_tf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index b99d151..cef386b 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -154,7 +154,8 @@ def find_neighbors_tf(grid,
   aabb_min_per_center_point_2D = tf.gather(
       abb_min_per_batch_2D, center_batch_ids)
   center_cell_ind_2D = tf.math.floor(
-      (center_points[:, :2] - aabb_min_per_center_point_2D) / radii[:2])
+      (center_points[:, :2] - aabb_min_per_center_point_2D) /
+      grid._cell_sizes[:2])
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-- 
2.43.0


From 21209cd9e4927fa34b444c0fa10313c69927b018 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 05/64] fix: respect per dimension radii in the neighbor search

---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index cef386b..8b22c28 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -195,8 +195,8 @@ def find_neighbors_tf(grid,
     adj_points = neighbor_points[adj_ids_start:adj_ids_end]
     adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
     distances = tf.linalg.norm(
-        adj_points - tf.reshape(cur_point, [1, -1]), axis=1)
-    close = (distances < radii[0])
+        (adj_points - tf.reshape(cur_point, [1, -1])) / radii, axis=1)
+    close = (distances < 1.0)
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-- 
2.43.0


From 9ecb11a6097bc4aa7af35e976a66269b3ca35f0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 06/64] fix: respect max_neighbors in the neighbor search

---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 8b22c28..bb1b59d 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -200,6 +200,8 @@ def find_neighbors_tf(grid,
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
+    if max_neighbors > 0:
+      close_ids = close_ids[:max_neighbors]
 
     cur_neighbors = tf.stack(
         (close_ids, tf.ones_like(close_ids) * i), axis=1)
-- 
2.43.0


From e6e0c5480cb6595a1265bbc304fe17b27814eed6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 07/64] fix: make the search without grid agree with the grid
 search

---
 pylib/pc/custom_ops/custom_ops_tf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index bb1b59d..fd3d6ec 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -246,18 +246,17 @@ def find_neighbors_no_grid(point_cloud,
   distances = tf.linalg.norm(tf.expand_dims(points, axis=0) - \
                              tf.expand_dims(center_points, axis=1),
                              axis=-1)
-  close = (distances <= radius)
+  close = (distances < radius)
   same_batch = (tf.expand_dims(batch_ids, axis=0) == \
                 tf.expand_dims(center_batch_ids, axis=1))
   close = tf.math.logical_and(same_batch, close)
 
   neighbors = tf.where(close)
   neighbors = tf.reverse(neighbors, axis=[1])
-  num_neighbors = tf.shape(neighbors)[0]
-  neigh_ranges = tf.math.unsorted_segment_max(
-      tf.range(1, num_neighbors + 1),
+  neigh_ranges = tf.math.cumsum(tf.math.unsorted_segment_sum(
+      tf.ones_like(neighbors[:, 1], dtype=tf.int32),
       neighbors[:, 1],
-      num_center_points)
+      num_center_points))
   return neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsNoGrid')
 
-- 
2.43.0


From 8d7ab89c6cf0d07beab36b718a9e2478d27a9145 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 08/64] fix: keep the cast of a single radius in Neighborhood

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 8819547..d2f2284 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -224,7 +224,7 @@ class Neighborhood:
     radii = tf.reshape(tf.cast(tf.convert_to_tensor(value=radius),
                                tf.float32), [-1])
     if radii.shape[0] == 1:
-      radii = tf.repeat(radius, grid._point_cloud._dimension)
+      radii = tf.repeat(radii, grid._point_cloud._dimension)
     #Save the attributes.
     if point_cloud_sample is None:
       self._equal_samples = True
-- 
2.43.0


From bbcfa279cf67afd9121889c76e8819c83326f3ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 09/64] fix: call compute_pdf with a neighborhood in
 density_estimation

---
 pylib/pc/Neighborhood.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index d2f2284..97b6df4 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -134,16 +134,8 @@ def density_estimation(point_cloud,
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
     grid = Grid(point_cloud, scaling)
-    pdf_neighbors, nb_ranges = \
-        compute_neighborhoods(grid,
-                              scaling,
-                              return_ranges=True,
-                              return_sorted_ids=True)
-    pdf_sorted = compute_pdf(grid,
-                             pdf_neighbors,
-                             nb_ranges,
+    pdf_sorted = compute_pdf(Neighborhood(grid, scaling),
                              bandwidth,
-                             scaling,
                              mode.value)
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
-- 
2.43.0


From 995904619aa196ec7722144759d97d21954dbf01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 10/64] fix: build valid transposed neighborhoods in
 _NeighborhoodTransposed

---
 pylib/pc/Neighborhood.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 97b6df4..cdc5f98 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -328,7 +328,7 @@ class _NeighborhoodTransposed(Neighborhood):
 
   def __init__(self, neighborhood):
     if neighborhood._equal_samples:
-      self = neighborhood
+      self.__dict__.update(neighborhood.__dict__)
     else:
       self._equal_samples = False
       self._radii = neighborhood._radii
@@ -350,9 +350,10 @@ class _NeighborhoodTransposed(Neighborhood):
 
       num_neighbors = neighborhood._original_neigh_ids.shape[0]
       num_center_points = self._point_cloud_sampled._points.shape[0]
-      self._samples_neigh_ranges = tf.math.unsorted_segment_max(
-          tf.range(1, num_neighbors + 1),
-          self._neighbors[:, 1],
-          num_center_points)
+      self._samples_neigh_ranges = tf.math.cumsum(
+          tf.math.unsorted_segment_sum(
+              tf.ones([num_neighbors], dtype=tf.int32),
+              self._neighbors[:, 1],
+              num_center_points))
 
       self._pdf = None
-- 
2.43.0


From 17a1479617e7e80d363ac2b8f34430ccf61cd6e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 11/64] fix: use the matching sample mode in the sampling
 functions

---
 pylib/pc/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index b10cff4..5fa5e18 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -64,7 +64,7 @@ def poisson_disk_sampling(point_cloud,
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
+      sampling(neighborhood, sample_modes['poisson'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
@@ -111,7 +111,7 @@ def cell_average_sampling(point_cloud,
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
+      sampling(neighborhood, sample_modes['cell average'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
-- 
2.43.0


From 16f64af4af36e2655c7954cf49f108b97d1ca364 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 12/64] fix: pass the dimension when casting sampling radii and
 cell sizes

---
 pylib/pc/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 5fa5e18..0b9b081 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -58,7 +58,7 @@ def poisson_disk_sampling(point_cloud,
         "Missing Argument! Either radius or neighborhood must be given!")
   if neighborhood is None:
     # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
     grid = Grid(point_cloud, radii)
     neighborhood = Neighborhood(grid, radii)
 
@@ -104,7 +104,7 @@ def cell_average_sampling(point_cloud,
         "Missing Argument! Either cell_sizes or grid must be given!")
   if grid is None:
     # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
   neighborhood = Neighborhood(grid, cell_sizes)
-- 
2.43.0


From 41b6d6ed574aab1ef03209c464a45af7885ca7c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 13/64] fix: cell average sampling of a given grid

---
 pylib/pc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 0b9b081..784288c 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -107,7 +107,7 @@ def cell_average_sampling(point_cloud,
     cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
-  neighborhood = Neighborhood(grid, cell_sizes)
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-- 
2.43.0


From 62cc2d5647a65a5b0d6b86eb7e57cd29959c2b38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 14/64] fix: list of transposed neighborhoods of a hierarchy

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 81e574e..49f0059 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -172,7 +172,7 @@ class PointHierarchy:
     """
     if i is None:
       if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
+        return [nb.transpose() for nb in self._neighborhoods]
       else:
         return self._neighborhoods
     else:
-- 
2.43.0


From d1242bcf45aecb63bc37ff20fc53f82374d80465 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 15/64] fix: accept scalar cell sizes in PointHierarchy

---
 pylib/pc/PointHierarchy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 49f0059..ec91132 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -54,8 +54,8 @@ class PointHierarchy:
     #Create the different sampling operations.
     cur_point_cloud = point_cloud
     for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.convert_to_tensor(
-        value=cur_cell_sizes, dtype=tf.float32)
+      cur_cell_sizes  = tf.reshape(tf.convert_to_tensor(
+        value=cur_cell_sizes, dtype=tf.float32), [-1])
 
       # Check if the cell size is defined for all the dimensions.
       # If not, the last cell size value is tiled until all the dimensions
-- 
2.43.0


From 82cac4b5fb0211d7c6b8b0553340f3f1ea8cba94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 16/64] fix: pass max_num_points on in
 PointHierarchy.get_points

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index ec91132..cb52dd5 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -118,7 +118,7 @@ class PointHierarchy:
     """
     points = []
     for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
+      points.append(point_cloud.get_points(batch_id, max_num_points))
     return points
 
   def get_sizes(self, name=None):
-- 
2.43.0


From c5d2a1d968bfbb5d30ced3c5e021ddcec6542f5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 17/64] fix: store the neighborhoods between successive levels
 of a hierarchy

---
 pylib/pc/PointHierarchy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index cb52dd5..d6053ea 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -93,7 +93,8 @@ class PointHierarchy:
       cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
       cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
 
-      self._neighborhoods.append(cur_neighborhood)
+      self._neighborhoods.append(
+          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
       cur_point_cloud.set_batch_shape(self._batch_shape)
       self._point_clouds.append(cur_point_cloud)
 
-- 
2.43.0


From 40ca167d8c8f3bdfb9870b5b70cc95ce0f9ed8e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 18/64] fix: use the bounding box passed to Grid

---
 pylib/pc/Grid.py                          | 5 +++--
 pylib/pc/custom_ops/custom_ops_tf.py      | 8 ++++++--
 pylib/pc/custom_ops/custom_ops_wrapper.py | 7 +++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/Grid.py b/pylib/pc/Grid.py
index 5fc8565..bfb01eb 100755
--- a/pylib/pc/Grid.py
+++ b/pylib/pc/Grid.py
@@ -39,7 +39,7 @@ class Grid:
     self._batch_size = point_cloud._batch_size_numpy
     self._cell_sizes = cell_sizes
     self._point_cloud = point_cloud
-    self._aabb = point_cloud.get_AABB()
+    self._aabb = point_cloud.get_AABB() if aabb is None else aabb
     #Compute the number of cells in the grid.
     aabb_sizes = self._aabb._aabb_max - self._aabb._aabb_min
     batch_num_cells = tf.cast(
@@ -50,7 +50,8 @@ class Grid:
     #Compute the key for each point.
     self._cur_keys = compute_keys(
         self._point_cloud, self._num_cells,
-        self._cell_sizes)
+        self._cell_sizes,
+        aabb=self._aabb)
 
     #Sort the keys.
     self._sorted_indices = tf.argsort(
diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index fd3d6ec..071b522 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -18,7 +18,8 @@ import numpy as np
 from pylib.pc import PointCloud, Grid
 
 
-def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
+def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size,
+                    aabb=None, name=None):
   """ Computes the regular grid cell keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -30,12 +31,15 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   abb_min_per_batch = aabb._aabb_min
   aabb_min_per_point = tf.gather(abb_min_per_batch, point_cloud._batch_ids)
   cell_ind = tf.math.floor(
diff --git a/pylib/pc/custom_ops/custom_ops_wrapper.py b/pylib/pc/custom_ops/custom_ops_wrapper.py
index 694ee4d..2f45adc 100644
--- a/pylib/pc/custom_ops/custom_ops_wrapper.py
+++ b/pylib/pc/custom_ops/custom_ops_wrapper.py
@@ -17,7 +17,7 @@ import tensorflow as tf
 import tfg_custom_ops
 
 
-def compute_keys(point_cloud, num_cells, cell_size, name=None):
+def compute_keys(point_cloud, num_cells, cell_size, aabb=None, name=None):
   """ Method to compute the regular grid keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -29,12 +29,15 @@ def compute_keys(point_cloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   return tfg_custom_ops.compute_keys(
     point_cloud._points,
     point_cloud._batch_ids,
-- 
2.43.0


From fd1b0d95a1f4dfcb9dbeef99000e4098e038361b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 19/64] fix: count empty point clouds in the sizes of segmented
 batches

---
 pylib/pc/PointCloud.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index e08cf27..c41d47d 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -196,10 +196,9 @@ class PointCloud:
 
     """
     if self._sizes is None:
-      _ids, _, self._sizes = tf.unique_with_counts(
-          self._batch_ids)
-      _ids_sorted = tf.argsort(_ids)
-      self._sizes = tf.gather(self._sizes, _ids_sorted)
+      # also counts the empty point clouds in the batch
+      self._sizes = tf.math.unsorted_segment_sum(
+          tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     return self._sizes
-- 
2.43.0


From d77c0ee3dc976d656f8fb5a75ebaad5d3a11cfa5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 20/64] fix: respect max_num_points in every call of
 get_unflatten

---
 pylib/pc/PointCloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index c41d47d..a439ec4 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -224,8 +224,8 @@ class PointCloud:
       ValueError: When trying to unflatten unsorted points.
 
     """
-    if self._unflatten is None:
-      self._unflatten = lambda data: unflatten_2d_to_batch(
+    if self._unflatten is None or max_num_points is not None:
+      return lambda data: unflatten_2d_to_batch(
           data=tf.gather(data, self._sorted_indices_batch),
           sizes=self.get_sizes(),
           max_rows=max_num_points)
-- 
2.43.0


From b519a31954c64db31767f6019a7475906e3de4b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 21/64] fix: update the unflatten method and AABB when setting
 a batch shape

---
 pylib/pc/PointCloud.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index a439ec4..dd95891 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -278,3 +278,6 @@ class PointCloud:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     else:
       self._batch_shape = None
+    # these depend on the batch shape
+    self._unflatten = None
+    self._aabb = None
-- 
2.43.0


From 700bf64ad72b5ce62aa723e316900f9faa4eb813 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 22/64] fix: raise IndexError for all batch ids outside the
 batch

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index dd95891..cd3387a 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -176,7 +176,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id > self._batch_size:
+      if id < 0 or id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From 852e833a28b93ea0a8c9aec6f505a9f755ba8431 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 23/64] fix: accept sizes with multiple batch dimensions for
 segmented points

---
 pylib/pc/PointCloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index cd3387a..38a0dc7 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -144,7 +144,8 @@ class PointCloud:
     if self._batch_ids is None:
       if self._batch_size is None:
         self._batch_size = tf.reduce_prod(self._sizes.shape)
-      self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
+      self._batch_ids = tf.repeat(
+          tf.range(0, self._batch_size), tf.reshape(self._sizes, [-1]))
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._points = points
-- 
2.43.0


From de92d871e248bee414b6d8a7e94c48e7951bc948 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 24/64] fix: accept a scalar radius in local pooling layers

---
 pylib/pc/layers/Pooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 77fcb8e..5fc4d87 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -144,7 +144,7 @@ class _LocalPointPooling:
     features = _flatten_features(features, point_cloud_in)
     pooling_radius = tf.convert_to_tensor(
         value=pooling_radius, dtype=tf.float32)
-    if pooling_radius.shape[0] == 1:
+    if pooling_radius.shape == [] or pooling_radius.shape[0] == 1:
       pooling_radius = tf.repeat(pooling_radius, point_cloud_in._dimension)
 
     # Compute the grid.
-- 
2.43.0


From 597dfe2a21916e41ce286fcbde2bd20c5ee570fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 25/64] fix: remove the duplicated vertex of the kernel point
 hexagons

---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 7c25139..4600a0d 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -94,7 +94,7 @@ def _hexagon(scale, z_shift):
             [0.5, phi, 0],
             [0.5, -phi, 0],
             [-0.5, phi, 0],
-            [0.5, -phi, 0]]
+            [-0.5, -phi, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From ef449d3a91bf481c477589d038f8b54052cdb2a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 26/64] fix: place the second kernel point ring below the
 center

---
 pylib/pc/layers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 4600a0d..9fca2c5 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -203,14 +203,14 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, -1]], dtype=tf.float32)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
-    hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
+    hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]], hex1, hex2),
                             axis=0)
     points = tf.Variable(points, dtype=tf.float32)
   elif num_points == 18:
     penta1 = _pentagon(1 / np.sqrt(2), 0.5)
     penta2 = -_pentagon(1.0, 0.0) # flipped in xy
-    penta3 = _pentagon(-1 / np.sqrt(2), 0.5)
+    penta3 = _pentagon(-1 / np.sqrt(2), -0.5)
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]],
                              penta1, penta2, penta3),
                             axis=0)
-- 
2.43.0


From e8b15c2e9b9e5d915460df9365b5597f9a22b79b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 27/64] fix: kernel points on the icosahedron in the unit
 sphere

---
 pylib/pc/layers/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 9fca2c5..722bcca 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -187,7 +187,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [0, 0, -1]], dtype=tf.float32)
   elif num_points == 13:
     # Icosahedron
-    phi = (1 + tf.sqrt(5)) / 2
+    phi = (1 + np.sqrt(5)) / 2
     points = tf.Variable([[0, 0, 0],
                           [0, 1, phi],
                           [0, 1, -phi],
@@ -201,6 +201,8 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, 1],
                           [phi, 0, -1],
                           [-phi, 0, -1]], dtype=tf.float32)
+    # scale to the unit sphere
+    points = tf.Variable(points / np.sqrt(1 + phi**2), dtype=tf.float32)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
     hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
-- 
2.43.0


From 5f4eb6e7b630297f9bb86e5868ddc42d89422ee8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 28/64] fix: construct the 1x1 convolutions of
 PointResNetBottleNeck

---
 pylib/pc/layers/network_blocks.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 87c731e..251d189 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -222,12 +222,10 @@ class PointResNetBottleNeck(tf.Module):
         self._projection_layers.append(_identity)
       # up- and downwampling in feature domain
       self._downsampling_layers.append(Conv1x1(num_features,
-                                               bottle_neck_num_features,
-                                               use_bias=True))
+                                               bottle_neck_num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
       self._upsampling_layers.append(Conv1x1(bottle_neck_num_features,
-                                             num_features,
-                                             use_bias=True))
+                                             num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
 
   def __call__(self,
-- 
2.43.0


From c8eab378fdfd966326245ab3dcbd21b439326775 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 29/64] fix: pass the radius to all types of convolution layers
 in the ResNets

---
 pylib/pc/layers/network_blocks.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 251d189..5d4beb0 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -136,20 +136,20 @@ class PointResNet(tf.Module):
       features = self._batch_norm_layers[2 * i](features,
                                                 training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i](features=features,
-                                          point_cloud_in=point_cloud,
-                                          point_cloud_out=point_cloud,
-                                          radius=radius,
+      features = self._conv_layers[2 * i](features,
+                                          point_cloud,
+                                          point_cloud,
+                                          radius,
                                           neighborhood=neighborhood,
                                           **kwargs)
       # second residual convolution
       features = self._batch_norm_layers[2 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i + 1](features=features,
-                                              point_cloud_in=point_cloud,
-                                              point_cloud_out=point_cloud,
-                                              radius=radius,
+      features = self._conv_layers[2 * i + 1](features,
+                                              point_cloud,
+                                              point_cloud,
+                                              radius,
                                               neighborhood=neighborhood,
                                               **kwargs)
       # skip connection
@@ -276,10 +276,10 @@ class PointResNetBottleNeck(tf.Module):
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[i](features=features,
-                                      point_cloud_in=point_cloud,
-                                      point_cloud_out=point_cloud,
-                                      radius=radius,
+      features = self._conv_layers[i](features,
+                                      point_cloud,
+                                      point_cloud,
+                                      radius,
                                       neighborhood=neighborhood,
                                       **kwargs)
       # upsampling
@@ -430,30 +430,30 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                                 training=training)
       features = self._activation(features)
       features = self._downsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud,
-          point_cloud_out=point_cloud_downsampled,
-          radius=radii[0],
+          features,
+          point_cloud,
+          point_cloud_downsampled,
+          radii[0],
           neighborhood=neighborhoods[0],
           **kwargs)
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
       features = self._conv_layers[i](
-        features=features,
-        point_cloud_in=point_cloud_downsampled,
-        point_cloud_out=point_cloud_downsampled,
-        radius=radii[1],
+        features,
+        point_cloud_downsampled,
+        point_cloud_downsampled,
+        radii[1],
         neighborhood=neighborhoods[1],
         **kwargs)
       features = self._batch_norm_layers[3 * i + 2](features,
                                                     training=training)
       features = self._activation(features)
       features = self._upsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud_downsampled,
-          point_cloud_out=point_cloud,
-          radius=radii[2],
+          features,
+          point_cloud_downsampled,
+          point_cloud,
+          radii[2],
           neighborhood=neighborhoods[2],
           **kwargs)
       features = features + self._projection_layers[i](skip, point_cloud)
-- 
2.43.0


From f289ae75850d94f316e1c76577a5ae07d7203e83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 30/64] fix: keep the order of the points in the neighborhoods
 of the ResNets

---
 pylib/pc/layers/network_blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 5d4beb0..d99f699 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -129,7 +129,7 @@ class PointResNet(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # first residual convolution
@@ -264,7 +264,7 @@ class PointResNetBottleNeck(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # downsampling
@@ -415,7 +415,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
       # intra-downsampled
       grid = Grid(point_cloud_downsampled, radii_tensor[1])
       neighborhoods.append(Neighborhood(grid,
-                                        radii_tensor[1]))
+                                        radii_tensor[1],
+                                        point_cloud_downsampled))
       # upsampling
       if conv_radii[0] == conv_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
-- 
2.43.0


From ac749892b0407d50c5fd5cd11ba5f70b85f45317 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 31/64] fix: keep the last character of files without trailing
 newline

---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cac6bde..7e89715 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -49,7 +49,7 @@ def load_points_from_file_to_tensor(filename,
     if tf.io.gfile.exists(filename):
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         for line in in_file:
-          line_elements = line[:-1].split(delimiter)
+          line_elements = line.rstrip('\n').split(delimiter)
           points.append(line_elements[0:dimension])
           if len(line_elements) > 3:
             features.append(line_elements[dimension:])
@@ -98,7 +98,7 @@ def load_points_from_file_to_numpy(filename,
         i = 0
         for line in in_file:
           if max_num_points is not None and i < max_num_points:
-            line_elements = line[:-1].split(delimiter)
+            line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
               features.append(line_elements[dimension:])
-- 
2.43.0


From 5b5d3425d528e6df03a37470f9918d6b97abc820 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 32/64] fix: load all points if no maximum number is given

---
 pylib/io/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 7e89715..d8a5a71 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -97,7 +97,7 @@ def load_points_from_file_to_numpy(filename,
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         i = 0
         for line in in_file:
-          if max_num_points is not None and i < max_num_points:
+          if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
-- 
2.43.0


From 03c7b6794697ca85460587f490f1bec9b756fade Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 33/64] fix: respect the point dimension when loading a batch
 of points

---
 pylib/io/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index d8a5a71..138a1cd 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -148,7 +148,8 @@ def load_batch_of_points(filenames,
   sizes = []
   for filename in filenames:
     curr_points, curr_features = load_points_from_file_to_tensor(
-        filename=filename, delimiter=delimiter, dtype=dtype)
+        filename=filename, delimiter=delimiter, dimension=point_dimension,
+        dtype=dtype)
     points.append(curr_points)
     features.append(curr_features)
     sizes.append(len(curr_points))
-- 
2.43.0


From d7391c96c9ba5dda70e232b0bae05bf02d825c07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 34/64] fix: load files with any number of feature columns

---
 pylib/io/points.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 138a1cd..63e64aa 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,11 +51,10 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > 3:
-            features.append(line_elements[dimension:])
+          features.append(line_elements[dimension:])
 
       points = tf.convert_to_tensor(value=points)
-      features = tf.convert_to_tensor(value=features)
+      features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
       features = tf.strings.to_number(input=features, out_type=dtype)
       return points, features
@@ -100,8 +99,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > 3:
-              features.append(line_elements[dimension:])
+            features.append(line_elements[dimension:])
           else:
             break
           i += 1
-- 
2.43.0


From 9cf676f7b882f901d6b128c1c208daedda6808ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 35/64] fix: documented default influence distance of the
 kernel points in KPConv

---
 pylib/pc/layers/KPConv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 9e71127..6f12261 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -282,7 +282,7 @@ class KPConv(tf.Module):
 
     if kernel_influence_dist is None:
       # normalized
-      self._sigma = tf.constant(1.0)
+      self._sigma = tf.constant(1.0 / 2.5)
     else:
       self._sigma = tf.convert_to_tensor(
         value=kernel_influence_dist / conv_radius, dtype=tf.float32)
-- 
2.43.0


From 8506a675793cd807b75e8cbc47deca4f5a0373c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 36/64] fix: flatten the sizes when removing the batch shape of
 a point cloud

---
 pylib/pc/PointCloud.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 38a0dc7..5bee3f5 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -279,6 +279,8 @@ class PointCloud:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     else:
       self._batch_shape = None
+      if self._sizes is not None:
+        self._sizes = tf.reshape(self._sizes, [-1])
     # these depend on the batch shape
     self._unflatten = None
     self._aabb = None
-- 
2.43.0


From 067accb08e37a31f438ad928b8671210136a2f52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 37/64] fix: set the batch shape of segmented points given by
 their sizes

---
 pylib/pc/PointCloud.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 5bee3f5..86e5ca5 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -146,6 +146,10 @@ class PointCloud:
         self._batch_size = tf.reduce_prod(self._sizes.shape)
       self._batch_ids = tf.repeat(
           tf.range(0, self._batch_size), tf.reshape(self._sizes, [-1]))
+      # the sizes define the batch shape
+      self._batch_shape = tf.shape(self._sizes)
+      self._get_segment_id = tf.reshape(
+          tf.range(0, self._batch_size), self._batch_shape)
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._points = points
-- 
2.43.0


From 8444372f67e2e844a971cc6693cec3ec0fe28e00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 38/64] fix: padded output of global pooling for point clouds
 without batch shape

---
 pylib/pc/layers/Pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 5fc4d87..c814e3e 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -55,7 +55,7 @@ class GlobalMaxPooling:
         features,
         segment_ids=point_cloud._batch_ids,
         num_segments=point_cloud._batch_size)
-    if return_padded:
+    if return_padded and point_cloud._batch_shape is not None:
       shape = tf.concat((point_cloud._batch_shape, [-1]), axis=0)
       features = tf.reshape(features, shape)
     return features
@@ -94,7 +94,7 @@ class GlobalAveragePooling:
         features,
         segment_ids=point_cloud._batch_ids,
         num_segments=point_cloud._batch_size)
-    if return_padded:
+    if return_padded and point_cloud._batch_shape is not None:
       shape = tf.concat((point_cloud._batch_shape, [-1]), axis=0)
       features = tf.reshape(features, shape)
     return features
-- 
2.43.0


From da0f587e8ed617221ece05b6f5d1c2c188ac0d79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 39/64] fix: regular hexagons in the kernel point template with
 15 points

---
 pylib/pc/layers/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 722bcca..88b3d2b 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -91,10 +91,10 @@ def _hexagon(scale, z_shift):
   phi = np.sqrt(3) / 2
   points = [[0, 1, 0],
             [0, -1, 0],
-            [0.5, phi, 0],
-            [0.5, -phi, 0],
-            [-0.5, phi, 0],
-            [-0.5, -phi, 0]]
+            [phi, 0.5, 0],
+            [phi, -0.5, 0],
+            [-phi, 0.5, 0],
+            [-phi, -0.5, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From fde86f10726bd20abd1c40ebfe6fe5ffc9fab34b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 40/64] fix: use the configured number of samples per model in
 modelnet40_small

---
 modelnet40_small.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelnet40_small.py b/modelnet40_small.py
index a11b335..19b9e43 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -291,7 +291,7 @@ class modelnet_data_generator(tf.keras.utils.Sequence):
     self.index += 1
     return data
 
-  def __getitem__(self, index, samples_per_model=1024):
+  def __getitem__(self, index, samples_per_model=samples_per_model):
     ''' Loads data of current batch and samples random subset of the points.
     '''
     # constant input feature
-- 
2.43.0


From 5019638f24f8a1b799ba3941de04818189596c78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 41/64] fix: shuffle the training data between epochs

---
 modelnet40.py       | 2 ++
 modelnet40_small.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/modelnet40.py b/modelnet40.py
index bd51245..fdbc3dd 100644
--- a/modelnet40.py
+++ b/modelnet40.py
@@ -524,6 +524,8 @@ def training(model,
             epoch_accuracy.result()), end="")
       iterBatch += 1
     print()
+    # shuffle the data for the next epoch
+    gen_train.on_epoch_end()
 
     train_loss_results.append(epoch_loss_avg.result())
     train_accuracy_results.append(epoch_accuracy.result())
diff --git a/modelnet40_small.py b/modelnet40_small.py
index 19b9e43..ecf9c44 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -395,6 +395,8 @@ def training(model,
             end="")
 
       iter_batch += 1
+    # shuffle the data for the next epoch
+    gen_train.on_epoch_end()
 
     train_loss_results.append(epoch_loss_avg.result())
     train_accuracy_results.append(epoch_accuracy.result())
-- 
2.43.0


From cbe39a6d80c8a04936de746907239a087be02d62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 42/64] fix: create the cache directory in modelnet40_small

---
 modelnet40_small.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelnet40_small.py b/modelnet40_small.py
index ecf9c44..b7c6d4a 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -67,6 +67,10 @@ with open(data_dir + f'modelnet{num_classes}_test.txt') as inFile:
     test_labels.append(category_names.index(category))
 
 num_classes = len(category_names)
+
+if not os.path.exists(hdf5_tmp_dir):
+  os.mkdir(hdf5_tmp_dir)
+
 print(f'### loading modelnet{num_classes} train ###')
 if os.path.exists(hdf5_tmp_dir + "/train_data_small.hdf5"):
   h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5", "r")
-- 
2.43.0


From 2e6dbdd6e4dc65ea60e73babe92584dcf02c68ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 43/64] fix: compute grid keys with 64 bits

---
 pylib/pc/custom_ops/custom_ops_tf.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 071b522..4bc366d 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -48,12 +48,14 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size,
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
       num_cells - 1)
-  cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
+  # the keys of large grids exceed 32 bit
+  cell_ind = tf.cast(cell_ind, tf.int64)
+  cell_multiplier = tf.math.cumprod(tf.cast(num_cells, tf.int64), reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
-  keys = point_cloud._batch_ids * cell_multiplier[0] + \
+  keys = tf.cast(point_cloud._batch_ids, tf.int64) * cell_multiplier[0] + \
       tf.math.reduce_sum(cell_ind * tf.reshape(cell_multiplier[1:], [1, -1]),
                          axis=1)
-  return tf.cast(keys, tf.int64)
+  return keys
 tf.no_gradient('ComputeKeysTF')
 
 
@@ -73,7 +75,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
     An `int` `Tensor` of shape `[batch_size, num_cells[0], num_cells[1], 2]`.
 
   """
-  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int32)
+  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int64)
   num_cells = tf.cast(tf.convert_to_tensor(value=num_cells), tf.int32)
 
   num_keys = tf.shape(sorted_keys)[0]
@@ -83,8 +85,8 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
       'Points must have dimensionality >1.')
   cells_per_2D_cell = tf.cond(
     tf.shape(num_cells)[0] > 2,
-    lambda: tf.reduce_prod(num_cells[2:]),
-    lambda: 1
+    lambda: tf.reduce_prod(tf.cast(num_cells[2:], tf.int64)),
+    lambda: tf.constant(1, dtype=tf.int64)
   )
   # condition without graph mode
   # if tf.shape(num_cells)[0] > 2:
@@ -92,8 +94,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
   # elif tf.shape(num_cells)[0] == 2:
   #     cells_per_2D_cell = 1
 
-  ds_indices = tf.cast(tf.floor(sorted_keys / cells_per_2D_cell),
-                       dtype=tf.int32)
+  ds_indices = tf.cast(sorted_keys // cells_per_2D_cell, dtype=tf.int32)
   indices = tf.range(0, num_keys, dtype=tf.int32)
   first_per_cell = tf.math.unsorted_segment_min(
       indices, ds_indices, num_cells_2D)
-- 
2.43.0


From d05c07f40845787eeaf3463cb14757b53d78dddb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 44/64] fix: search the neighbors of all centers at once, so
 that it works in graph mode

The loop over the centers iterates in Python over the shape of a tensor, which
fails inside a tf.function; the condition on the shape of the radii compares a
tensor with an empty list and aborts the process there.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 95 +++++++++++++---------------
 1 file changed, 43 insertions(+), 52 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 4bc366d..c49c6bf 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -16,6 +16,7 @@
 import tensorflow as tf
 import numpy as np
 from pylib.pc import PointCloud, Grid
+from pylib.pc.utils import cast_to_num_dims
 
 
 def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size,
@@ -143,14 +144,7 @@ def find_neighbors_tf(grid,
       `grid._sorted_points`.
 
   """
-  radii = tf.convert_to_tensor(value=radii)
-  radii = tf.cond(
-      tf.logical_or(tf.shape(radii)[0] == [], tf.shape(radii)[0] == 1),
-      lambda: tf.repeat(radii, grid._point_cloud._dimension),
-      lambda: radii)
-  # condition without graph mode
-  # if tf.shape(radii)[0] == [] or tf.shape(radii)[0] == 1:
-  #   radii = tf.repeat(radii, grid._point_cloud._dimension)
+  radii = cast_to_num_dims(radii, grid._point_cloud._dimension)
   # compute keys of center points in neighbors 2D grid
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
@@ -170,52 +164,49 @@ def find_neighbors_tf(grid,
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = []
-  center_neigh_ranges = []
-  cur_neigh_range = 0
-  for i in range(tf.shape(center_points)[0]):
-    cur_point = center_points[i]
-    cur_batch_id = center_batch_ids[i]
-    # get cell_ids of adjacent 2D cells (9 in total)
-    cur_cell_id_2D = center_cell_ind_2D[i]
-    adj_cell_ids_2D = tf.stack(
-        (cur_cell_id_2D + [-1, -1],
-         cur_cell_id_2D + [-1, 0],
-         cur_cell_id_2D + [-1, 1],
-         cur_cell_id_2D + [0, 1],
-         cur_cell_id_2D,
-         cur_cell_id_2D + [0, -1],
-         cur_cell_id_2D + [1, -1],
-         cur_cell_id_2D + [1, 0],
-         cur_cell_id_2D + [1, 1]), axis=0)
-    # clip to range between 0 and max num cells
-    adj_cell_ids_2D = tf.minimum(
+  num_center_points = tf.shape(center_points)[0]
+  # get cell_ids of adjacent 2D cells (9 in total)
+  adj_cell_ids_2D = tf.expand_dims(center_cell_ind_2D, axis=1) + \
+      tf.constant([[[-1, -1], [-1, 0], [-1, 1],
+                    [0, -1], [0, 0], [0, 1],
+                    [1, -1], [1, 0], [1, 1]]])
+  # clip to range between 0 and max num cells
+  adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
       grid._num_cells[:2] - 1)
-    # get min and max point ids of the adjacent cells
-    adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
-    adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-    adj_ids_end = tf.reduce_max(adj_ids[0, :, 1])
-    # choose points below certain distance and in same batch
-    adj_points = neighbor_points[adj_ids_start:adj_ids_end]
-    adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
-    distances = tf.linalg.norm(
-        (adj_points - tf.reshape(cur_point, [1, -1])) / radii, axis=1)
-    close = (distances < 1.0)
-    same_batch = (adj_batch_ids == cur_batch_id)
-    close = tf.math.logical_and(close, same_batch)
-    close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-    if max_neighbors > 0:
-      close_ids = close_ids[:max_neighbors]
-
-    cur_neighbors = tf.stack(
-        (close_ids, tf.ones_like(close_ids) * i), axis=1)
-    neighbors.append(cur_neighbors)
-    cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(cur_neigh_range)
-
-  neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.stack(center_neigh_ranges, axis=0)
+  # get min and max point ids of the adjacent cells
+  adj_batch_ids = tf.repeat(
+      tf.reshape(center_batch_ids, [-1, 1, 1]), 9, axis=1)
+  adj_ids = tf.gather_nd(
+      data_structure, tf.concat((adj_batch_ids, adj_cell_ids_2D), axis=2))
+  adj_ids_start = tf.reduce_min(adj_ids[:, :, 0], axis=1)
+  adj_ids_end = tf.reduce_max(adj_ids[:, :, 1], axis=1)
+  # list the point ids in these ranges for all centers
+  num_adj = adj_ids_end - adj_ids_start
+  center_ids = tf.repeat(tf.range(0, num_center_points), num_adj)
+  point_ids = tf.range(0, tf.reduce_sum(num_adj)) + \
+      tf.gather(adj_ids_start - tf.math.cumsum(num_adj, exclusive=True),
+                center_ids)
+  # choose points below certain distance and in same batch
+  distances = tf.linalg.norm(
+      (tf.gather(neighbor_points, point_ids) -
+       tf.gather(center_points, center_ids)) / radii, axis=1)
+  close = (distances < 1.0)
+  same_batch = (tf.gather(neighbor_batch_ids, point_ids) ==
+                tf.gather(center_batch_ids, center_ids))
+  close = tf.math.logical_and(close, same_batch)
+  neighbors = tf.boolean_mask(
+      tf.stack((point_ids, center_ids), axis=1), close)
+  num_neighbors = tf.math.unsorted_segment_sum(
+      tf.cast(close, tf.int32), center_ids, num_center_points)
+  if max_neighbors > 0:
+    # keep the first neighbors of each center
+    first_neighbor = tf.math.cumsum(num_neighbors, exclusive=True)
+    rank = tf.range(0, tf.shape(neighbors)[0]) - \
+        tf.gather(first_neighbor, neighbors[:, 1])
+    neighbors = tf.boolean_mask(neighbors, rank < max_neighbors)
+    num_neighbors = tf.minimum(num_neighbors, max_neighbors)
+  center_neigh_ranges = tf.math.cumsum(num_neighbors)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From e39e7f9b169cb08cb3dc4e3f84bdf3445f8dcbb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 45/64] fix: poisson sampling, padded clouds and normalised
 densities in graph mode

Growing a tensor in a loop, reading a shape as a number and static shapes of
unknown size fail inside a tf.function.
---
 pylib/pc/Neighborhood.py             | 2 +-
 pylib/pc/PointCloud.py               | 3 +--
 pylib/pc/custom_ops/custom_ops_tf.py | 3 +++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index cdc5f98..dd85796 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -281,7 +281,7 @@ class Neighborhood:
       norm_factors = tf.math.unsorted_segment_sum(
           tf.ones_like(self._pdf),
           self._neighbors[:, 1],
-          self._point_cloud_sampled._points.shape[0])
+          tf.shape(self._point_cloud_sampled._points)[0])
       self._pdf = self._pdf / tf.gather(norm_factors, self._neighbors[:, 1])
 
   def get_pdf(self, **kwargs):
diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 86e5ca5..d5ae17f 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -129,8 +129,7 @@ class PointCloud:
     if self._batch_size is None:
       self._batch_size = tf.reduce_prod(self._batch_shape)
     if self._sizes is None:
-      self._sizes = tf.constant(
-          value=tf.shape(points)[-2], shape=self._batch_shape)
+      self._sizes = tf.fill(self._batch_shape, tf.shape(points)[-2])
     self._get_segment_id = tf.reshape(
         tf.range(0, self._batch_size), self._batch_shape)
     self._points, self._unflatten = flatten_batch_to_2d(points, self._sizes)
diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index c49c6bf..67688ad 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -289,6 +289,9 @@ def sampling_tf(neighborhood, sample_mode, name=None):
 
     #sample points until all log probabilites are set to -inf
     while not tf.reduce_all(tf.math.is_inf(log_probabilities)):
+      # the number of samples grows (graph mode)
+      tf.autograph.experimental.set_loop_options(
+          shape_invariants=[(sampled_indices, tf.TensorShape([None]))])
       choice = tf.random.categorical(
           tf.expand_dims(log_probabilities, axis=0), 1)[0]
       # add choice to sampled indices
-- 
2.43.0


From 240a0a9ebf09ef90c8d279ce6ac6192d13cd6d87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 46/64] fix: read one element of a batch in graph mode

The size of the batch is not a Python number inside a tf.function, where the
comparison raised the error for every index.
---
 pylib/pc/PointCloud.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index d5ae17f..2afebdc 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -180,8 +180,12 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id < 0 or id >= self._batch_size:
-        raise IndexError('batch index out of range')
+      # `None` if not known in graph mode
+      index = tf.get_static_value(tf.convert_to_tensor(value=id))
+      batch_size = tf.get_static_value(self._batch_size)
+      if index is not None and batch_size is not None:
+        if index < 0 or index >= batch_size:
+          raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
       return self.get_unflatten(max_num_points=max_num_points)(self._points)
-- 
2.43.0


From 283a797d7ceb0bc389d514bff5835648248f2994 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 47/64] fix: deformable kernel points in graph mode

The number of neighbor pairs is no static shape inside a tf.function.
---
 pylib/pc/layers/KPConv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 6f12261..b9e448b 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -278,7 +278,7 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    self._num_output_points = point_cloud_out._points.shape[0]
+    self._num_output_points = tf.shape(point_cloud_out._points)[0]
 
     if kernel_influence_dist is None:
       # normalized
@@ -387,7 +387,7 @@ class KPConv(tf.Module):
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
     return  tf.reshape(offset_per_nb,
-                       [neighbors.shape[0],
+                       [tf.shape(neighbors)[0],
                         self._num_kernel_points,
                         self._num_dims])
 
-- 
2.43.0


From 94e3551ccccbb72a4d1d237603eb84e5d6c2f2f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 48/64] fix: transposed neighborhoods and normalised density
 estimates in graph mode

The number of points and pairs can be unknown inside a tf.function.
---
 pylib/pc/Neighborhood.py | 6 +++---
 pylib/pc/utils.py        | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index dd85796..68f5e74 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -140,7 +140,7 @@ def density_estimation(point_cloud,
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-    pdf = pdf / point_cloud._points.shape[0]
+    pdf = pdf / tf.cast(tf.shape(point_cloud._points)[0], pdf.dtype)
   return pdf
 
 
@@ -348,8 +348,8 @@ class _NeighborhoodTransposed(Neighborhood):
         tf.reshape(aux_neigh_ids, [-1, 1]),
         tf.reshape(self._original_neigh_ids[:, 1], [-1, 1])], axis=-1)
 
-      num_neighbors = neighborhood._original_neigh_ids.shape[0]
-      num_center_points = self._point_cloud_sampled._points.shape[0]
+      num_neighbors = tf.shape(neighborhood._original_neigh_ids)[0]
+      num_center_points = tf.shape(self._point_cloud_sampled._points)[0]
       self._samples_neigh_ranges = tf.math.cumsum(
           tf.math.unsorted_segment_sum(
               tf.ones([num_neighbors], dtype=tf.int32),
diff --git a/pylib/pc/utils.py b/pylib/pc/utils.py
index 2f761c3..685c545 100644
--- a/pylib/pc/utils.py
+++ b/pylib/pc/utils.py
@@ -39,7 +39,8 @@ def check_valid_point_cloud_input(points, sizes, batch_ids):
         'Invalid input! Point tensor is of dimension 1 \
         but should be at least 2!')
   if points.shape.ndims == 2 and batch_ids is not None:
-    if points.shape[0] != batch_ids.shape[0]:
+    # unknown sizes in graph mode are compatible
+    if not points.shape[:1].is_compatible_with(batch_ids.shape[:1]):
       raise AssertionError('Invalid sizes! Sizes of points and batch_ids are' +
                            ' not equal.')
 
-- 
2.43.0


From b1951cfc135ba58ad21fe4b5111456cb55bdb198 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 49/64] fix: spatial bottleneck networks in graph mode

The comparison of two radii is no Python condition inside a tf.function.
---
 pylib/pc/layers/network_blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index d99f699..95027ac 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -418,7 +418,9 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                         radii_tensor[1],
                                         point_cloud_downsampled))
       # upsampling
-      if conv_radii[0] == conv_radii[2]:
+      # `None` if not known in graph mode
+      static_radii = tf.get_static_value(conv_radii)
+      if static_radii is not None and static_radii[0] == static_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
       else:
         grid_up = Grid(point_cloud_downsampled, radii_tensor[2])
-- 
2.43.0


From 97f96c89c8423cff0c88912b8e884d74e0d31b71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 50/64] fix: poisson sampling in graph mode without autograph

Autograph does not convert code called by constructors, so hierarchies failed
to sample inside a tf.function.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 67688ad..9322527 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -288,10 +288,12 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     tf_neg_inf = tf.constant(-np.inf)
 
     #sample points until all log probabilites are set to -inf
-    while not tf.reduce_all(tf.math.is_inf(log_probabilities)):
-      # the number of samples grows (graph mode)
-      tf.autograph.experimental.set_loop_options(
-          shape_invariants=[(sampled_indices, tf.TensorShape([None]))])
+    # (a while loop of the graph, also if called without autograph)
+    def not_finished(log_probabilities, sampled_indices):
+      return tf.logical_not(
+          tf.reduce_all(tf.math.is_inf(log_probabilities)))
+
+    def sample_point(log_probabilities, sampled_indices):
       choice = tf.random.categorical(
           tf.expand_dims(log_probabilities, axis=0), 1)[0]
       # add choice to sampled indices
@@ -304,6 +306,11 @@ def sampling_tf(neighborhood, sample_mode, name=None):
           log_probabilities,
           tf.expand_dims(sample_neighbors, axis=1),
           tf.repeat(tf_neg_inf, num_neighbors))
+      return log_probabilities, sampled_indices
+
+    _, sampled_indices = tf.while_loop(
+        not_finished, sample_point, (log_probabilities, sampled_indices),
+        shape_invariants=(log_probabilities.shape, tf.TensorShape([None])))
     sampled_points = tf.gather(points, sampled_indices)
     sampled_batch_ids = tf.gather(batch_ids, sampled_indices)
 
-- 
2.43.0


From e713e38dbd371e541175902cda1bca6b6fdad424 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 51/64] fix: keep no values of traced functions in objects
 created outside of them

---
 pylib/pc/Grid.py         |  6 +++++-
 pylib/pc/Neighborhood.py | 10 ++++++++--
 pylib/pc/PointCloud.py   | 14 ++++++++++----
 pylib/pc/utils.py        | 18 ++++++++++++++++++
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/pylib/pc/Grid.py b/pylib/pc/Grid.py
index bfb01eb..4d16fe7 100755
--- a/pylib/pc/Grid.py
+++ b/pylib/pc/Grid.py
@@ -15,6 +15,7 @@ import tensorflow as tf
 
 from pylib.pc.custom_ops import compute_keys, build_grid_ds
 from pylib.pc import PointCloud, AABB
+from pylib.pc.utils import is_in_current_graph
 
 
 class Grid:
@@ -80,6 +81,9 @@ class Grid:
     """
     if self._fast_DS is None:
       #Build the fast access data structure.
-      self._fast_DS = build_grid_ds(
+      fast_DS = build_grid_ds(
           self._sorted_keys, self._num_cells, self._batch_size)
+      if not is_in_current_graph(self._sorted_keys):
+        return fast_DS
+      self._fast_DS = fast_DS
     return self._fast_DS
diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 68f5e74..4cd02b9 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -39,7 +39,7 @@ import tensorflow as tf
 from pylib.pc import PointCloud
 from pylib.pc import Grid
 from pylib.pc.custom_ops import find_neighbors, compute_pdf
-from pylib.pc.utils import cast_to_num_dims
+from pylib.pc.utils import cast_to_num_dims, is_in_current_graph
 
 
 class KDEMode(enum.Enum):
@@ -300,6 +300,9 @@ class Neighborhood:
     """
     if self._pdf is None:
       self.compute_pdf(**kwargs)
+      if not is_in_current_graph(self._neighbors):
+        pdf, self._pdf = self._pdf, None
+        return pdf
     return self._pdf
 
   def get_grid(self):
@@ -316,8 +319,11 @@ class Neighborhood:
         self._transposed = self
       else:
         grid = Grid(self._point_cloud_sampled, self._radii)
-        self._transposed = Neighborhood(
+        transposed = Neighborhood(
             grid, self._radii, self._grid._point_cloud)
+        if not is_in_current_graph(self._neighbors):
+          return transposed
+        self._transposed = transposed
     return self._transposed
 
 
diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 2afebdc..0c41fb9 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -17,7 +17,7 @@ import tensorflow as tf
 from tensorflow_graphics.geometry.convolution.utils import \
     flatten_batch_to_2d, unflatten_2d_to_batch
 
-from pylib.pc.utils import check_valid_point_cloud_input
+from pylib.pc.utils import check_valid_point_cloud_input, is_in_current_graph
 
 
 class _AABB:
@@ -205,10 +205,13 @@ class PointCloud:
     """
     if self._sizes is None:
       # also counts the empty point clouds in the batch
-      self._sizes = tf.math.unsorted_segment_sum(
+      sizes = tf.math.unsorted_segment_sum(
           tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
-        self._sizes = tf.reshape(self._sizes, self._batch_shape)
+        sizes = tf.reshape(sizes, self._batch_shape)
+      if not is_in_current_graph(self._sorted_indices_batch):
+        return sizes
+      self._sizes = sizes
     return self._sizes
 
   def get_unflatten(self, max_num_points=None, name=None):
@@ -250,7 +253,10 @@ class PointCloud:
 
     """
     if self._aabb is None:
-      self._aabb = _AABB(point_cloud=self)
+      aabb = _AABB(point_cloud=self)
+      if not is_in_current_graph(self._sorted_indices_batch):
+        return aabb
+      self._aabb = aabb
     return self._aabb
 
   def set_batch_shape(self, batch_shape, name=None):
diff --git a/pylib/pc/utils.py b/pylib/pc/utils.py
index 685c545..ac51d72 100644
--- a/pylib/pc/utils.py
+++ b/pylib/pc/utils.py
@@ -18,6 +18,24 @@ from tensorflow_graphics.geometry.convolution.utils import flatten_batch_to_2d
 from pylib.pc import PointCloud
 
 
+def is_in_current_graph(tensor):
+  """ Checks if a value computed now can be kept together with `tensor`.
+
+  A value computed while tracing a `tf.function` belongs to the traced graph,
+  it must not be stored in an object which lives outside of this graph.
+
+  Args:
+    tensor: A `Tensor`.
+
+  Returns:
+    A `bool`.
+
+  """
+  if tf.executing_eagerly():
+    return True
+  return getattr(tensor, 'graph', None) is tf.compat.v1.get_default_graph()
+
+
 def check_valid_point_cloud_input(points, sizes, batch_ids):
   """Checks that the inputs to the constructor of class 'PointCloud' are valid.
 
-- 
2.43.0


From 5cdc072188350f0ddba389a5e3c89115a96776c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 52/64] fix: list only the points of the adjacent cells in the
 neighbor search

The neighbors of all centers are searched at once, ranges over the whole grid
needed a lot of memory. The masks have known shapes in graph mode, also for
grids created outside of the traced function.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 9322527..66159c8 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -170,30 +170,36 @@ def find_neighbors_tf(grid,
       tf.constant([[[-1, -1], [-1, 0], [-1, 1],
                     [0, -1], [0, 0], [0, 1],
                     [1, -1], [1, 0], [1, 1]]])
+  # the points are sorted by descending cells
+  adj_cell_ids_2D = tf.reverse(adj_cell_ids_2D, axis=[1])
   # clip to range between 0 and max num cells
-  adj_cell_ids_2D = tf.minimum(
+  clipped_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
       grid._num_cells[:2] - 1)
-  # get min and max point ids of the adjacent cells
+  # get the ranges of the point ids in the adjacent cells
   adj_batch_ids = tf.repeat(
       tf.reshape(center_batch_ids, [-1, 1, 1]), 9, axis=1)
   adj_ids = tf.gather_nd(
-      data_structure, tf.concat((adj_batch_ids, adj_cell_ids_2D), axis=2))
-  adj_ids_start = tf.reduce_min(adj_ids[:, :, 0], axis=1)
-  adj_ids_end = tf.reduce_max(adj_ids[:, :, 1], axis=1)
+      data_structure, tf.concat((adj_batch_ids, clipped_cell_ids_2D), axis=2))
+  adj_ids_start = tf.reshape(adj_ids[:, :, 0], [-1])
+  # cells outside of the grid are empty
+  inside = tf.reduce_all(
+      tf.equal(adj_cell_ids_2D, clipped_cell_ids_2D), axis=2)
+  num_adj = tf.reshape(
+      (adj_ids[:, :, 1] - adj_ids[:, :, 0]) * tf.cast(inside, tf.int32), [-1])
   # list the point ids in these ranges for all centers
-  num_adj = adj_ids_end - adj_ids_start
-  center_ids = tf.repeat(tf.range(0, num_center_points), num_adj)
+  range_ids = tf.repeat(tf.range(0, 9 * num_center_points), num_adj)
+  center_ids = range_ids // 9
   point_ids = tf.range(0, tf.reduce_sum(num_adj)) + \
       tf.gather(adj_ids_start - tf.math.cumsum(num_adj, exclusive=True),
-                center_ids)
+                range_ids)
   # choose points below certain distance and in same batch
   distances = tf.linalg.norm(
       (tf.gather(neighbor_points, point_ids) -
        tf.gather(center_points, center_ids)) / radii, axis=1)
   close = (distances < 1.0)
-  same_batch = (tf.gather(neighbor_batch_ids, point_ids) ==
-                tf.gather(center_batch_ids, center_ids))
+  same_batch = tf.equal(tf.gather(neighbor_batch_ids, point_ids),
+                        tf.gather(center_batch_ids, center_ids))
   close = tf.math.logical_and(close, same_batch)
   neighbors = tf.boolean_mask(
       tf.stack((point_ids, center_ids), axis=1), close)
-- 
2.43.0


From d55b8ddc948472d56fd0154a11780b30afb64bc5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 53/64] fix: transpose a transposed neighborhood

---
 pylib/pc/Neighborhood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 4cd02b9..884ada9 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -363,3 +363,4 @@ class _NeighborhoodTransposed(Neighborhood):
               num_center_points))
 
       self._pdf = None
+      self._transposed = neighborhood
-- 
2.43.0


From 9d5423d9d7c9b82b7b2338a1177613775f703ec1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 54/64] fix: transposition and densities of neighborhoods with
 limited size

---
 pylib/pc/Neighborhood.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 884ada9..88aa7b0 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -270,7 +270,7 @@ class Neighborhood:
       self._pdf = tf.ones_like(
           self._neighbors[:, 0], dtype=tf.float32)
     else:
-      if self._equal_samples:
+      if self._equal_samples and self.max_neighbors == 0:
         pdf_neighbors = self
       else:
         pdf_neighbors = Neighborhood(self._grid, self._radii, None)
@@ -315,12 +315,16 @@ class Neighborhood:
     are switched. (faster than recomputing)
     """
     if self._transposed is None:
-      if self._equal_samples:
+      if self._equal_samples and self.max_neighbors == 0:
         self._transposed = self
       else:
-        grid = Grid(self._point_cloud_sampled, self._radii)
-        transposed = Neighborhood(
-            grid, self._radii, self._grid._point_cloud)
+        if self.max_neighbors > 0:
+          # a new search would choose other neighbors
+          transposed = _NeighborhoodTransposed(self)
+        else:
+          grid = Grid(self._point_cloud_sampled, self._radii)
+          transposed = Neighborhood(
+              grid, self._radii, self._grid._point_cloud)
         if not is_in_current_graph(self._neighbors):
           return transposed
         self._transposed = transposed
@@ -333,11 +337,12 @@ class _NeighborhoodTransposed(Neighborhood):
   """
 
   def __init__(self, neighborhood):
-    if neighborhood._equal_samples:
+    if neighborhood._equal_samples and neighborhood.max_neighbors == 0:
       self.__dict__.update(neighborhood.__dict__)
     else:
       self._equal_samples = False
       self._radii = neighborhood._radii
+      self.max_neighbors = neighborhood.max_neighbors
       self._point_cloud_sampled = neighborhood._grid._point_cloud
       self._grid = Grid(neighborhood._point_cloud_sampled, neighborhood._radii)
 
-- 
2.43.0


From 6106ae1b1903e3bdc4ebbaa2c794e0a235546d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 55/64] fix: search the neighbors within the row of cells in
 the CUDA op

For four and more dimensions with at most two cells along the last one, the
range of keys reached into the next row of cells and points were listed twice.
---
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index aa4dfb3..103e5d9 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -61,8 +61,8 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
     int initPtIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
 
-    //Calculate the total number of cells.
-    mccnn::int64_m totalCells = mccnn::compute_total_num_cells_gpu_funct(pNumCells[0]);
+    //Get the number of cells in the last dimension.
+    mccnn::int64_m rowCells = pNumCells[0][D-1];
 
     for(int curIter = initPtIndex; curIter < pNumSamples*pNumOffsets; curIter += totalThreads)
     {
@@ -103,8 +103,10 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
                 mccnn::int64_m auxKey = mccnn::compute_key_gpu_funct(auxCell, pNumCells[0], cellIndex[0]);
                 mccnn::int64_m maxKey = auxKey+pLastDOffsets;
                 mccnn::int64_m minKey = auxKey-pLastDOffsets;
-                maxKey = (auxKey/totalCells == maxKey/totalCells)?maxKey:((auxKey/totalCells)*totalCells) + totalCells - 1;
-                minKey = (auxKey/totalCells == minKey/totalCells)?minKey:((auxKey/totalCells)*totalCells);
+                //Do not leave the row of cells along the last dimension.
+                mccnn::int64_m rowStart = (auxKey/rowCells)*rowCells;
+                maxKey = MCCNN_MIN(maxKey, rowStart + rowCells - 1);
+                minKey = MCCNN_MAX(minKey, rowStart);
 
                 //Declare iterators and auxiliar variables.
                 int2 curMinRange = make_int2(0, rangeSize);
-- 
2.43.0


From 3b14af42ff925df0ce03d6a49e86a6974ee2f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 56/64] fix: data race in the scan of the neighbor counts in
 the CUDA op

The offset of the next block was written to shared memory while slower threads
still read the previous one, and the barrier was not reached by all threads.
---
 .../cc/kernels/scan_alg_kernels.cu.cc         | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index a4ab33a..99dfee4 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -131,8 +131,6 @@
 
 /**
  *  GPU kernel to execute the parallel scan algorithm in an int array.
- *  NOTE: The number of threads per block have to be a divisor of 
- *  pCBlockSize in order to work.
  *  @param  pNumElems               Number of elements in the array.
  *  @param  pCBlockSize             Block size used for the counters.
  *  @param  pBlockCounter           Counter values for each block.
@@ -144,11 +142,7 @@
     const int* __restrict__ pBlockCounter,
     int* __restrict__ pElems)
 {
-    //Declare the shared memory.
-    __shared__ int blockOffset;
-
-    //Get the local and global thread index.
-    int localThread = threadIdx.x;
+    //Get the global thread index.
     int initElemIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
     
@@ -156,15 +150,8 @@
         curElemIndex < pNumElems; 
         curElemIndex+=totalThreads)
     {
-        //The the offset of the block.
-        if(localThread == 0){
-            blockOffset = pBlockCounter[curElemIndex/pCBlockSize];
-        }
-
-        __syncthreads();
-
-        //Update the counters.
-        pElems[curElemIndex] += blockOffset;
+        //Update the counters with the offset of the block.
+        pElems[curElemIndex] += pBlockCounter[curElemIndex/pCBlockSize];
     }
 }
 
-- 
2.43.0


From a9caa345f25d66a4f37bacc7f2c9653209bc57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 57/64] fix: uniform random values in the CUDA ops

The value in [0, 1) was returned as an unsigned int, i.e. truncated to zero.
---
 custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
index 97c8152..0f7189e 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
@@ -43,9 +43,9 @@ namespace mccnn{
         return pSeed;
     }
 
-    __device__ __forceinline__ unsigned int seed_to_float(unsigned int pSeed)
+    __device__ __forceinline__ float seed_to_float(unsigned int pSeed)
     {
-        return float(pSeed) * (1.0 / 4294967296.0);
+        return float(pSeed >> 8) * (1.0f / 16777216.0f);
     }
 }
 
-- 
2.43.0


From a36871bc75ab16969efbd11b99c0618b16182143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 58/64] fix: limited number of neighbors in the CUDA op

The counter was reset for each block of cells, such that samples could write
more neighbors than allowed (four and more dimensions), and the position of a
replaced neighbor was computed from a counter that other threads still changed.
---
 .../cc/kernels/store_neighbors.h              |  8 +++++++
 .../cc/kernels/store_neighbors_kernels.cu.cc  | 23 +++++++++++--------
 .../cc/ops/find_neighbors_ops.cpp             | 13 ++++++++++-
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 68a941d..93960ea 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,12 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pInGPUPtrStartNeighs    Input pointer to the vector with the
+     *      index of the first neighbor of each sample. Only required if there
+     *      is a limit of neighbors.
+     *  @param  pOutGPUPtrAuxCounter    Input/Output pointer to the vector with
+     *      the number of neighbors found so far for each sample. Only required
+     *      if there is a limit of neighbors.
      *  @param  pOutGPUPtrNumNeighs     Input/Output pointer to the vector  
      *      with the number of neighbors for each sample on the GPU.
      *  @param  pOutGPUPtrNeighs        Output pointer to the vector with the 
@@ -60,6 +66,8 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        const int* pInGPUPtrStartNeighs,
+        int* pOutGPUPtrAuxCounter,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
         
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 011ea22..0b09a0d 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -42,6 +42,7 @@
  *      search of neighbors in each dimension.
  *  @param  pOutNumNeighsU  Number of neighbors for each sample
  *      without the limit imposed by pMaxNeighbors.
+ *  @param  pStartNeighs    Index of the first neighbor of each sample.
  *  @param  pAuxCounter     Auxiliar counter.
  *  @param  pOutNumNeighs   Number of neighbors for each sample.
  *  @param  pOutNeighs      Final beighbors.
@@ -58,6 +59,7 @@
     const int2* __restrict__ pRanges,
     const mccnn::fpoint<D>* __restrict__ pInvRadii,
     const int* __restrict__ pOutNumNeighsU,
+    const int* __restrict__ pStartNeighs,
     int* __restrict__ pAuxCounter,
     int* __restrict__ pOutNumNeighs,
     int2* __restrict__ pOutNeighs)
@@ -94,7 +96,9 @@
                 int neighIndex = atomicAdd(&pAuxCounter[sampleIndex], 1);
                 if(neighIndex < pMaxNeighbors){
                     neighIndex = atomicAdd(&pOutNumNeighs[sampleIndex], 1);
-                    pOutNeighs[neighIndex] = make_int2(curPtIter, sampleIndex);
+                    //Another thread can replace the point at the same time.
+                    atomicExch(&pOutNeighs[neighIndex].x, curPtIter);
+                    pOutNeighs[neighIndex].y = sampleIndex;
                 }else{
                     float ratio = (float)pMaxNeighbors/(float)pOutNumNeighsU[sampleIndex];
                     curSeed = mccnn::rand_xorshift(curSeed);
@@ -102,8 +106,9 @@
                     if(uniformVal < ratio){
                         curSeed = mccnn::rand_xorshift(curSeed);
                         uniformVal = mccnn::seed_to_float(curSeed);
-                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors))+1;
-                        pOutNeighs[pOutNumNeighs[sampleIndex] - neighIndex] = make_int2(curPtIter, sampleIndex);
+                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors));
+                        neighIndex = MCCNN_MIN(neighIndex, pMaxNeighbors-1);
+                        atomicExch(&pOutNeighs[pStartNeighs[sampleIndex] + neighIndex].x, curPtIter);
                     }
                 }
             }
@@ -181,6 +186,8 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    const int* pInGPUPtrStartNeighs,
+    int* pOutGPUPtrAuxCounter,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
 {
@@ -193,11 +200,6 @@ void mccnn::store_neighbors(
     unsigned int numBlocks;
     unsigned int blockSize;
     if(pMaxNeighbors > 0){
-        //Create a temporal tensor.
-        int* tmpVect = pDevice->getIntTmpGPUBuffer(pNumSamples);
-        pDevice->memset(tmpVect, 0, sizeof(int)*pNumSamples);
-        pDevice->check_error(__FILE__, __LINE__);
-
         //Calculate the ideal number of blocks for the selected block size.
         unsigned int numMP = gpuProps.numMPs_;
         blockSize = gpuProps.warpSize_*2;
@@ -222,7 +224,8 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
-            tmpVect,
+            pInGPUPtrStartNeighs,
+            pOutGPUPtrAuxCounter,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
         pDevice->check_error(__FILE__, __LINE__);
@@ -282,6 +285,8 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        const int* pInGPUPtrStartNeighs,        \
+        int* pOutGPUPtrAuxCounter,              \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 4371275..5abbb7a 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -225,6 +225,17 @@ namespace mccnn{
                 gpuDevice->memset(outputGPUPtr2, 0, sizeof(int)*numNeighbors*2);
                 gpuDevice->check_error(__FILE__, __LINE__);
 
+                //Create the counters required to limit the number of neighbors.
+                int* tmpGPUPtr5 = nullptr;
+                int* tmpGPUPtr6 = nullptr;
+                if(maxNeighs_ > 0){
+                    tmpGPUPtr5 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memcpy_device_to_device(tmpGPUPtr5, outputGPUPtr1, sizeof(int)*numSamples);
+                    tmpGPUPtr6 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memset(tmpGPUPtr6, 0, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                }
+
                 for(int i = 0; i < numOfComputations; ++i)
                 {
                     if(numOfComputations > 1){
@@ -245,7 +256,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr5, tmpGPUPtr6, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
-- 
2.43.0


From 0a0fef1bb310a0aa74bb7722798f7d55679b0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 59/64] fix: return the indices of the cell average sampling in
 the CUDA op

The output was a single value that was never written.
---
 custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index 5a3e5b5..6f69fe6 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -178,7 +178,7 @@ namespace mccnn{
                     int* outIndicesGPUPtr = nullptr;
                     TensorShape outShape1 = TensorShape{numKeys, numDimensions};
                     TensorShape outShape2 = TensorShape{numKeys};
-                    TensorShape outShape3 = TensorShape{1};
+                    TensorShape outShape3 = TensorShape{numKeys};
                     OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
                         (0, pContext, outShape1, &outPtsGPUPtr));
                     OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
@@ -191,6 +191,11 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::sampling_avg_gpu,
                         gpuDevice, numPts, numKeys, ptKeysGPUPtr, ptsGPUPtr, 
                         numCellsGPUPtr, tmpGPUPtr1, outPtsGPUPtr, outBatchIdsGPUPtr);
+
+                    //Return the first point of each cell.
+                    gpuDevice->memcpy_device_to_device(
+                        outIndicesGPUPtr, tmpGPUPtr1, sizeof(int)*numKeys);
+                    gpuDevice->check_error(__FILE__, __LINE__);
                 }
             }
 
-- 
2.43.0


From 877fd28dbfecfa6509ce2554e0005bfa0d7b2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 60/64] fix: empty point clouds in the CUDA ops

The kernels were launched without threads, which ended the process.
---
 .../basis_proj/cc/ops/basis_proj_ops.cpp         | 10 ++++++++++
 .../build_grid_ds/cc/ops/build_grid_ds_ops.cpp   |  8 ++++++++
 .../compute_keys/cc/ops/compute_keys_ops.cpp     |  3 +++
 .../compute_pdf/cc/ops/compute_pdf_ops.cpp       |  6 ++++++
 .../find_neighbors/cc/ops/find_neighbors_ops.cpp |  9 +++++++++
 .../sampling/cc/ops/sampling_ops.cpp             | 16 ++++++++++++++++
 6 files changed, 52 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
index 4b45f5e..342e639 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
@@ -122,6 +122,9 @@ namespace mccnn{
                 OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
                     (0, pContext, outShape, &outputGPUPtr));
 
+                //Nothing to compute without samples.
+                if(numSamples == 0) return;
+
                 //Compute the projected points.
                 BASIS_SWITCH_CALL(numBasis, 
                     mccnn::basis_proj_gpu,
@@ -210,6 +213,13 @@ namespace mccnn{
                 OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
                     (1, pContext, out2Shape, &output2GPUPtr));
 
+                //The gradients are zero without samples.
+                if(numSamples == 0){
+                    gpuDevice->memset(output2GPUPtr, 0, sizeof(float)*numPts*numInFeatures);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                    return;
+                }
+
                 //Compute the projected points.
                 BASIS_SWITCH_CALL(numBasis, 
                     mccnn::basis_proj_grads_gpu,
diff --git a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
index 36b81f3..9c17f0a 100755
--- a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
+++ b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
@@ -99,6 +99,14 @@ namespace mccnn{
                 //Get the gpu device.
                 std::unique_ptr<mccnn::IGPUDevice> gpuDevice = make_unique<mccnn::TFGPUDevice>(pContext);
 
+                //All cells of an empty point cloud are empty.
+                if(numPts == 0){
+                    gpuDevice->memset(outputGPUPtr, 0, 
+                        sizeof(int)*batchSize_*numCellsCPU(0)*numCellsCPU(1)*2);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                    return;
+                }
+
                 //Compute the data structure.
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::build_grid_ds_gpu,
                     gpuDevice, batchSize_*numCellsCPU(0)*numCellsCPU(1)*2, 
diff --git a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
index abdd948..22911e2 100755
--- a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
@@ -109,6 +109,9 @@ namespace mccnn{
                 //Get the gpu device.
                 std::unique_ptr<mccnn::IGPUDevice> gpuDevice = make_unique<mccnn::TFGPUDevice>(pContext);
 
+                //Nothing to compute for an empty point cloud.
+                if(numPts == 0) return;
+
                 //Compute the keys.
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_keys_gpu,
                     gpuDevice, numPts, ptsGPUPtr, batchIdsGPUPtr, 
diff --git a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
index 1965163..cfcfce2 100755
--- a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
@@ -146,6 +146,9 @@ namespace mccnn{
                 OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
                     (0, pContext, outShape, &outputGPUPtr));
 
+                //Nothing to compute for an empty point cloud.
+                if(numSamples == 0) return;
+
                 //Compute the PDF  
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_pdf_gpu,
                     gpuDevice, mode_, numSamples, numNeighbors, inInvRadiiGPUPtr, 
@@ -238,6 +241,9 @@ namespace mccnn{
                 OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
                     (0, pContext, outShape, &outputGPUPtr));
 
+                //Nothing to compute for an empty point cloud.
+                if(numSamples == 0) return;
+
                 //Compute the PDF  
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_pdf_grads_gpu,
                     gpuDevice, mode_, numPts, numSamples, numNeighbors, inInvRadiiGPUPtr,
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 5abbb7a..102df9a 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -162,6 +162,15 @@ namespace mccnn{
                 gpuDevice->memset(outputGPUPtr1, 0, sizeof(int)*numSamples);
                 gpuDevice->check_error(__FILE__, __LINE__);
 
+                //There are no neighbors without samples or points.
+                if(numSamples == 0 || numPts == 0){
+                    int* emptyGPUPtr = nullptr;
+                    TensorShape emptyShape = TensorShape{0, 2};
+                    OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
+                        (1, pContext, emptyShape, &emptyGPUPtr));
+                    return;
+                }
+
                 //Create the temporal tensors.
                 mccnn::int64_m* tmpGPUPtr1 = gpuDevice->getInt64TmpGPUBuffer(numSamples);
                 int* tmpGPUPtr2 = gpuDevice->getIntTmpGPUBuffer(
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index 6f69fe6..2c1c3b2 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -128,6 +128,22 @@ namespace mccnn{
                 //Get the gpu device.
                 std::unique_ptr<mccnn::IGPUDevice> gpuDevice = make_unique<mccnn::TFGPUDevice>(pContext);
 
+                //There are no samples without points.
+                if(numPts == 0){
+                    float* emptyPtsGPUPtr = nullptr;
+                    int* emptyBatchIdsGPUPtr = nullptr;
+                    int* emptyIndicesGPUPtr = nullptr;
+                    TensorShape emptyShape1 = TensorShape{0, numDimensions};
+                    TensorShape emptyShape2 = TensorShape{0};
+                    OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<float>
+                        (0, pContext, emptyShape1, &emptyPtsGPUPtr));
+                    OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
+                        (1, pContext, emptyShape2, &emptyBatchIdsGPUPtr));
+                    OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
+                        (2, pContext, emptyShape2, &emptyIndicesGPUPtr));
+                    return;
+                }
+
                 //Count the number of unique keys.
                 unsigned int numKeys = mccnn::count_unique_keys_gpu(gpuDevice, numPts, ptKeysGPUPtr);
                 
-- 
2.43.0


From dc04635e4fc206b4f45b21bf92ff68c9d24193e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 61/64] fix: repeat the last cell size for the remaining
 dimensions in PointHierarchy

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index d6053ea..226be44 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -65,7 +65,7 @@ class PointHierarchy:
           cur_num_dims < self._dimension,
           lambda: tf.concat((cur_cell_sizes,
                              tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
+                                               [cur_num_dims - 1]),
                                      [self._dimension - cur_num_dims])),
                             axis=0),
           lambda: cur_cell_sizes)
-- 
2.43.0


From 93e6a4992101355963d7b6f758b078ac9959be30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 62/64] fix: finite gradients of KPConv for kernel points at
 distance zero

---
 pylib/pc/layers/KPConv.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index b9e448b..a916d3f 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -26,6 +26,20 @@ from pylib.pc.layers.utils import _format_output, spherical_kernel_points, \
     random_rotation
 
 
+def _distances(differences):
+  """ Lengths of difference vectors, with gradient zero at distance zero.
+
+  Args:
+    differences: A `float` `Tensor` of shape `[..., D]`.
+
+  Returns:
+    A `float` `Tensor` of shape `[...]`.
+
+  """
+  squares = tf.reduce_sum(differences**2, axis=-1)
+  return tf.sqrt(tf.maximum(squares, 1e-36))
+
+
 def _linear_weighting(values, sigma):
   """ Linear kernel weights for KP Conv.
 
@@ -193,7 +207,7 @@ class KPConv(tf.Module):
     kernel_offsets = self._get_offsets(kernel_input, neighborhood, features)
     points_diff = tf.expand_dims(kernel_input, 1) - \
         (tf.expand_dims(self._kernel_points, 0) + kernel_offsets)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _distances(points_diff)
     kernel_weights = self._weighting(points_dist, self._sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
@@ -347,7 +361,7 @@ class KPConv(tf.Module):
     # kernel weights from distances, shape [M, K]
     points_diff = tf.expand_dims(kernel_input, 1) - \
         tf.expand_dims(self._kernel_points, 0)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _distances(points_diff)
     kernel_weights = self._weighting(points_dist, self._sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
-- 
2.43.0


From 8de5d7179e732f18c6c415074aec76ff3221a0f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 63/64] fix: regularization of KPConv for points without
 neighbors

---
 pylib/pc/layers/KPConv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index a916d3f..ba3753a 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -424,15 +424,21 @@ class KPConv(tf.Module):
     min_dists_per_nbh = tf.math.unsorted_segment_min(point_dist,
                                                      neighbors[:, 1],
                                                      self._num_output_points)
+    # points without neighbors have no closest point
+    num_neighbors = tf.math.unsorted_segment_sum(
+        tf.ones_like(neighbors[:, 1]), neighbors[:, 1],
+        self._num_output_points)
+    min_dists_per_nbh = tf.where(tf.expand_dims(num_neighbors > 0, 1),
+                                 min_dists_per_nbh,
+                                 tf.zeros_like(min_dists_per_nbh))
     loss_fit = tf.reduce_sum(min_dists_per_nbh)
 
     # repulsive loss for kernel points with overlapping influence area.
     kernel_offsets = self._offsets
     # shape [N2, K, D]
     kernel_points = tf.expand_dims(self._kernel_points, 0) + kernel_offsets
-    kernel_dists = tf.linalg.norm(tf.expand_dims(kernel_points, 1) - \
-                                  tf.expand_dims(kernel_points, 2),
-                                  axis=3)
+    kernel_dists = _distances(tf.expand_dims(kernel_points, 1) - \
+                              tf.expand_dims(kernel_points, 2))
     kernel_weights = self._weighting(kernel_dists, self._sigma)
     # set weight between same kernel point to zero
     kernel_weights = tf.linalg.set_diag(kernel_weights,
-- 
2.43.0


From 4474c11abb1c7b7cac3058ab3e0284eb51967c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:49 +0000
Subject: [PATCH 64/64] fix: flat points with sizes of unknown shape in graph
 mode

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 0c41fb9..148fc45 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -142,7 +142,7 @@ class PointCloud:
     """
     if self._batch_ids is None:
       if self._batch_size is None:
-        self._batch_size = tf.reduce_prod(self._sizes.shape)
+        self._batch_size = tf.reduce_prod(tf.shape(self._sizes))
       self._batch_ids = tf.repeat(
           tf.range(0, self._batch_size), tf.reshape(self._sizes, [-1]))
       # the sizes define the batch shape
-- 
2.43.0

