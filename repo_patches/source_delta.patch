From d9e8f57ee3d99f51c36656ba7128bb3b85ce3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:50 +0000
Subject: [PATCH 01/22] fix: single-day window in the approximate day-of-year
 threshold

With window_days_hobday=1 the padding size is 0 and hist_chunk[-0:] is the
whole histogram, so the padded array doubled and the kernel crashed.
---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index a0a1d07..d268544 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2365,7 +2365,7 @@ def _rolling_histogram_quantile(
 
     # Pad histogram with wrap mode for day-of-year cycling
     pad_size = window_days_hobday // 2
-    hist_pad = np.concatenate([hist_chunk[-pad_size:], hist_chunk, hist_chunk[:pad_size]], axis=0)
+    hist_pad = np.concatenate([hist_chunk[n_doy - pad_size :], hist_chunk, hist_chunk[:pad_size]], axis=0)
 
     # Apply rolling sum using stride tricks FTW
     windowed_view = sliding_window_view(hist_pad, window_days_hobday, axis=0)
-- 
2.43.0


From 735514900426d893410ec2113befc47ab0015ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:50 +0000
Subject: [PATCH 02/22] fix: exact constant thresholds on small unstructured
 grids

The chunk size rounded down to 0 for fewer than about 4500 cells and the
rechunk failed with ZeroDivisionError.
---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index d268544..6c2e8e5 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2761,7 +2761,7 @@ def _identify_extremes_constant(
         if "y" in dimensions:
             rechunk_size = "auto"
         else:
-            rechunk_size = 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100)
+            rechunk_size = 100 * max(1, int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100))
         # N.B.: If this rechunk_size is too small, then dask will be overwhelmed by the number of tasks
         chunk_dict = {dimensions[dim]: rechunk_size for dim in ["x", "y"] if dim in dimensions}
         chunk_dict[dimensions["time"]] = -1
-- 
2.43.0


From 37401d1e87dd9ca16045342e57700bb2e33d6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 03/22] fix: keep objects exactly at the area threshold on
 unstructured grids

Gridded data keeps objects of at least the threshold area; the unstructured path and the
accepted-area statistic used a strict comparison.
---
 marEx/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dd83d63..5e8ceae 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1334,7 +1334,7 @@ class tracker:
         object_areas = object_areas.compute()
         total_area_IDed = float(object_areas.sum().item())
 
-        accepted_area = float(object_areas.where(object_areas > area_threshold, drop=True).sum().item())
+        accepted_area = float(object_areas.where(object_areas >= area_threshold, drop=True).sum().item())
         accepted_area_fraction = accepted_area / total_area_IDed
 
         total_hobday_area = float(raw_area.sum().compute().item())
@@ -1836,7 +1836,7 @@ class tracker:
                 area_threshold = self.area_filter_absolute
             else:
                 area_threshold = np.percentile(object_areas, self.area_filter_quartile * 100)
-            N_objects_filtered = np.sum(object_areas > area_threshold)
+            N_objects_filtered = np.sum(object_areas >= area_threshold)
 
             def filter_area_binary(cluster_IDs_0: NDArray[np.int32], keep_IDs_0: NDArray[np.int32]) -> NDArray[np.bool_]:
                 """Keep only clusters above threshold area."""
@@ -1845,7 +1845,7 @@ class tracker:
                 return keep_where
 
             # Create filtered binary data
-            keep_IDs = xr.where(cluster_sizes > area_threshold, unique_cluster_IDs, 0)
+            keep_IDs = xr.where(cluster_sizes >= area_threshold, unique_cluster_IDs, 0)
 
             data_bin_filtered = xr.apply_ufunc(
                 filter_area_binary,
-- 
2.43.0


From 382120126bcaccd4068f5587936b0b2c02b13df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 04/22] fix: hole filling near the grid edges

The latitude axis was padded periodically (joining the two poles) and the padding was half of
what closing followed by opening needs, so cells next to the longitude seam were wrongly removed.
---
 marEx/track.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 5e8ceae..f099d5d 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1621,8 +1621,11 @@ class tracker:
                 if R_fill == 0:
                     pass  # No morphological operations needed
                 else:
-                    # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: diameter, self.xdim: diameter}, mode=mode)
+                    # Pad data to avoid edge effects: closing followed by opening reaches 4 * R_fill cells.
+                    #   N.B.: Only the x-dimension is periodic
+                    pad_y = 2 * diameter
+                    pad_x = pad_y if self.regional_mode else min(pad_y, data_bin.sizes[self.xdim])
+                    data_bin = data_bin.pad({self.ydim: pad_y}, mode="edge").pad({self.xdim: pad_x}, mode=mode)
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
@@ -1637,8 +1640,8 @@ class tracker:
                     data_bin = xr.DataArray(data_bin, coords=data_coords, dims=data_dims)
                     data_bin = data_bin.isel(
                         {
-                            self.ydim: slice(diameter, -diameter),
-                            self.xdim: slice(diameter, -diameter),
+                            self.ydim: slice(pad_y, -pad_y),
+                            self.xdim: slice(pad_x, -pad_x),
                         }
                     )
             else:  # pragma: no cover
-- 
2.43.0


From be8a9993c5d8e1cd840f818a258258fcd4bd9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 05/22] fix: mask the result of hole filling on unstructured
 grids

Land cells set to True inside the morphology leaked into the second pass and grew spurious
events in narrow straits.
---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index f099d5d..76f780c 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1670,8 +1670,8 @@ class tracker:
                     dask="parallelized",
                 )
 
-            # Mask out edge features from morphological operations
-            data_bin = data_bin.where(self.mask, drop=False, other=False)
+        # Mask out edge features from morphological operations
+        data_bin = data_bin.where(self.mask, drop=False, other=False)
 
         return data_bin
 
-- 
2.43.0


From a8fec0fa08a0137890722daed326259b4f4f720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 06/22] fix: centroid partitioning on unstructured grids
 returns one label per merged cell

The full-length array was assigned to the cells of the merged object, so every merge crashed.
---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 76f780c..c2c71a2 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5419,7 +5419,7 @@ def partition_centroid_unstructured(
 
         new_labels[i] = child_ids[closest_parent]
 
-    return new_labels
+    return new_labels[child_mask]
 
 
 @njit(fastmath=True, parallel=True)
-- 
2.43.0


From f09055acb4b2ae52ff806aece30da8a764d52490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 07/22] fix: do not offer padding rows as parents when
 partitioning merged objects

parent_centroids is padded to MAX_PARENTS rows; cells near the padding position were assigned
to a parent that does not exist.
---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index c2c71a2..b26d681 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4068,7 +4068,7 @@ class tracker:
                         new_labels_uint = partition_nn_unstructured_optimised(
                             child_mask.copy(),
                             parent_masks_uint.copy(),
-                            parent_centroids,
+                            parent_centroids[:n_parents],
                             neighbours_int.copy(),
                             lat,
                             lon,
@@ -4082,7 +4082,7 @@ class tracker:
 
                     else:
                         # Use centroid-based partitioning
-                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids, child_ids, lat, lon)
+                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids[:n_parents], child_ids, lat, lon)
 
                     # Update slice data for subsequent merging in process_chunk
                     data_t[child_mask] = new_labels
-- 
2.43.0


From 83bb8ed58ba207578002bd9222adbfad59c9f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 08/22] fix: nearest-parent partitioning on unstructured grids
 advances one hop per step

The frontier was re-read after each neighbour direction, so the first parents advanced several
hops before the others and captured cells that are nearer to another parent.
---
 marEx/track.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index b26d681..5935352 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5194,8 +5194,8 @@ def partition_nn_unstructured(
         updates_made = False
 
         for parent_idx in range(n_parents):
-            # Get current frontier points
-            frontier_mask = visited[parent_idx]
+            # Get current frontier points (a snapshot: advance by a single neighbour step per distance)
+            frontier_mask = visited[parent_idx].copy()
             if not np.any(frontier_mask):
                 continue
 
@@ -5296,14 +5296,17 @@ def partition_nn_unstructured_optimised(
         current_distance += 1
         updates_made = False
 
+        # Snapshot: advance by a single neighbour step per distance
+        parent_frontiers_previous = parent_frontiers_working.copy()
+
         for parent_idx in range(n_parents):
             # Skip if no frontier points for this parent
-            if not np.any(parent_frontiers_working == parent_idx):
+            if not np.any(parent_frontiers_previous == parent_idx):
                 continue
 
             # Process neighbours for current parent's frontier
             for i in range(3):
-                neighbors = neighbours_int[i, parent_frontiers_working == parent_idx]
+                neighbors = neighbours_int[i, parent_frontiers_previous == parent_idx]
                 valid_neighbors = neighbors >= 0
 
                 if not np.any(valid_neighbors):
-- 
2.43.0


From 6c6b150f8309c4af8e904853d6f6ba9a86a204a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 09/22] fix: nearest-parent partitioning searches the whole
 search radius

Only grid cells within a quarter of max_distance were searched, so cells far from all parents
(or next to the longitude seam) could be assigned to a parent that is not the nearest.
---
 marEx/track.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 5935352..df0b771 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5015,6 +5015,9 @@ def partition_nn_grid(
     half_Nx = Nx / 2
     n_parents = len(parent_masks)
     grid_size = max(2, max_distance // 4)
+    # Number of grid cells to search so that every point within max_distance is found
+    search_y = int(max_distance) // grid_size + 1
+    search_x = search_y + 1  # The last grid column may be narrower than the others
 
     y_indices, x_indices = np.nonzero(child_mask)
     n_child_points = len(y_indices)
@@ -5046,10 +5049,8 @@ def partition_nn_grid(
             min_dist_to_parent = np.inf
 
             # Check nearby grid cells
-            for dy in range(-1, 2):
-                grid_y_check = (grid_y + dy) % n_grids_y
-
-                for dx in range(-1, 2):
+            for grid_y_check in range(max(grid_y - search_y, 0), min(grid_y + search_y + 1, n_grids_y)):
+                for dx in range(-min(search_x, n_grids_x // 2 + 1), min(search_x, n_grids_x // 2 + 1) + 1):
                     grid_x_check = (grid_x + dx) % n_grids_x
 
                     # Process points in this grid cell
-- 
2.43.0


From 500683eef96686e8effb0425d8dbb623fb920da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:59 +0000
Subject: [PATCH 10/22] fix: centroids of objects on grids narrower than 200
 columns

An object was taken to straddle the periodic boundary when it had a cell within
100 columns of both edges, and every column beyond the middle was then shifted.
On narrow grids that applies to any object, so the centroid of an object in the
middle of the domain was placed on the opposite side of the globe.
---
 marEx/track.py | 80 +++++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index df0b771..f8352ff 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2074,36 +2074,23 @@ class tracker:
             # We don't need to adjust centroids for periodic boundaries
             return original_centroid
 
-        # Check if object is near either edge of x dimension
-        near_left_BC = np.any(binary_mask[:, :100])
-        near_right_BC = np.any(binary_mask[:, -100:])
+        y_indices, x_indices = np.nonzero(binary_mask)
 
         if original_centroid is None:  # pragma: no cover
             # Calculate y centroid from scratch
-            y_indices = np.nonzero(binary_mask)[0]
             y_centroid = np.mean(y_indices)
         else:
             y_centroid = original_centroid[0]
 
-        # If object is near both edges, recalculate x-centroid to handle wrapping
-        # N.B.: We calculate _near_ rather than touching, to catch the edge case where the
-        # object may be split and straddling the boundary !
-        if near_left_BC and near_right_BC:
-            # Adjust x coordinates that are near right edge
-            x_indices = np.nonzero(binary_mask)[1]
-            x_indices_adj = x_indices.copy()
-            right_side = x_indices > binary_mask.shape[1] // 2
-            x_indices_adj[right_side] -= binary_mask.shape[1]
+        # Unwrap the x coordinates of objects which straddle the periodic boundary
+        # N.B.: The object may be split, so do not rely on it touching the boundary !
+        x_indices_adj = unwrap_periodic_columns(x_indices, binary_mask.shape[1])
 
+        if x_indices_adj is not x_indices or original_centroid is None:
             x_centroid = np.mean(x_indices_adj)
             if x_centroid < 0:  # Ensure centroid is positive
                 x_centroid += binary_mask.shape[1]
 
-        elif original_centroid is None:  # pragma: no cover
-            # Calculate x-centroid from scratch
-            x_indices = np.nonzero(binary_mask)[1]
-            x_centroid = np.mean(x_indices)
-
         else:
             x_centroid = original_centroid[1]
 
@@ -3238,25 +3225,13 @@ class tracker:
 
                         # Calculate area-weighted x centroid (longitude) - handle wrapping if needed
                         if not regional_mode:
-                            # Check if object is near both edges (wrapping around periodic boundary)
-                            near_left = np.any(x_indices < 100)
-                            near_right = np.any(x_indices >= nx - 100)
-
-                            if near_left and near_right:
-                                # Object wraps around - adjust coordinates
-                                x_adjusted = x_indices.copy().astype(np.float64)
-                                right_side = x_indices > nx / 2
-                                x_adjusted[right_side] -= nx
-
-                                # Area-weighted mean with adjusted coordinates
-                                centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
-
-                                # Ensure centroid is positive
-                                if centroid_x_pix < 0:
-                                    centroid_x_pix += nx
-                            else:
-                                # No wrapping - standard area-weighted calculation
-                                centroid_x_pix = np.sum(x_indices * pixel_areas) / total_area
+                            # Area-weighted mean in coordinates unwrapped across the periodic boundary
+                            x_adjusted = unwrap_periodic_columns(x_indices, nx)
+                            centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
+
+                            # Ensure centroid is positive
+                            if centroid_x_pix < 0:
+                                centroid_x_pix += nx
                         else:
                             # Regional mode - no wrapping, area-weighted
                             centroid_x_pix = np.sum(x_indices * pixel_areas) / total_area
@@ -4826,6 +4801,37 @@ operations on both structured and unstructured grids.
 """
 
 
+def unwrap_periodic_columns(x_indices: NDArray[np.int64], nx: int) -> NDArray[np.int64]:
+    """
+    Unwrap column indices of an object across the periodic x boundary.
+
+    The (circular) x axis is cut in the widest gap between the columns occupied by the object, such that an
+    object straddling the boundary becomes contiguous. Objects which do not straddle it are returned unchanged.
+
+    Parameters
+    ----------
+    x_indices : numpy.ndarray
+        Column indices of the object's cells
+    nx : int
+        Size of the x dimension
+
+    Returns
+    -------
+    numpy.ndarray
+        Column indices, where those beyond the widest gap are shifted by -nx
+    """
+    columns = np.unique(x_indices)
+    if columns.size < 2:
+        return x_indices
+
+    gaps = np.diff(np.append(columns, columns[0] + nx))
+    widest = gaps.size - 1 - np.argmax(gaps[::-1])  # Of equally wide gaps, prefer the boundary itself
+    if widest == gaps.size - 1:
+        return x_indices
+
+    return np.where(x_indices >= columns[widest + 1], x_indices - nx, x_indices)
+
+
 @jit(nopython=True, parallel=True, fastmath=True)
 def wrapped_euclidian_distance_mask_parallel(
     mask_values: NDArray[np.bool_],
-- 
2.43.0


From 238f79d316bc85cc72ef9568d1eed45e56ff1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 11/22] fix: merge ledger lists the sibling events of a merge

Each event's row repeated the event's own ID in every sibling slot (including
the unused ones) instead of listing the IDs of the events it merged with.
---
 marEx/track.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index f8352ff..20e58e8 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3067,20 +3067,17 @@ class tracker:
                 if IDs_at_time.ndim == 1:
                     valid_mask = IDs_at_time > 0
                     if np.any(valid_mask):
-                        # Create expanded array for sibling_ID dimension
-                        expanded_IDs = np.broadcast_to(IDs_at_time, (len(time_block.sibling_ID), len(IDs_at_time)))
-                        result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs[:, valid_mask]
+                        # List all siblings (along sibling_ID) for each of the merging IDs
+                        sibling_IDs = np.where(valid_mask, IDs_at_time, -1)[:, np.newaxis]
+                        result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = sibling_IDs
 
                 # Handle multiple mergers case
                 else:
                     for merger_IDs in IDs_at_time:
                         valid_mask = merger_IDs > 0
                         if np.any(valid_mask):
-                            expanded_IDs = np.broadcast_to(
-                                merger_IDs,
-                                (len(time_block.sibling_ID), len(merger_IDs)),
-                            )
-                            result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs[:, valid_mask]
+                            sibling_IDs = np.where(valid_mask, merger_IDs, -1)[:, np.newaxis]
+                            result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = sibling_IDs
 
             return result
 
-- 
2.43.0


From db70c9a9a42b2eabeb766862ddb20c3bb7adbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:19 +0000
Subject: [PATCH 12/22] fix: merging on unstructured grids with single-timestep
 chunks

The first timestep of a chunk was read from the previous-timestep array, which
holds it only when the chunk has two or more steps; a (trailing) chunk of one
step crashed, and its list of merging objects was transposed.
---
 marEx/track.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 20e58e8..41ea79a 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3805,6 +3805,7 @@ class tracker:
         MAX_CHILDREN = MAX_PARENTS
 
         def process_chunk(
+            chunk_data_full: NDArray[np.int32],
             chunk_data_m1_full: NDArray[np.int32],
             chunk_data_p1_full: NDArray[np.int32],
             merging_objects: NDArray[np.int64],
@@ -3832,8 +3833,10 @@ class tracker:
 
             Parameters
             ----------
+            chunk_data_full : numpy.ndarray
+                Data from current timestep (t)
             chunk_data_m1_full : numpy.ndarray
-                Data from previous timestep (t-1) and current timestep (t)
+                Data from previous timestep (t-1)
             chunk_data_p1_full : numpy.ndarray
                 Data from next timestep (t+1)
             merging_objects : (n_time, max_merges) numpy.ndarray
@@ -3857,20 +3860,20 @@ class tracker:
             #    N.B.: This is a weird artefact/choice of xarray apply_ufunc broadcasting...
             #           (i.e. 'nv' dimension gets injected into all the other arrays!)
 
-            chunk_data_m1 = chunk_data_m1_full.squeeze()[0].astype(np.int32).copy()
-            chunk_data = chunk_data_m1_full.squeeze()[1].astype(np.int32).copy()
-            del chunk_data_m1_full  # Free memory immediately
-            chunk_data_p1 = chunk_data_p1_full.astype(np.int32).copy()
-            # Remove any singleton dimensions except time and space
-            while chunk_data_p1.ndim > 2:
-                chunk_data_p1 = chunk_data_p1.squeeze(axis=-1)
-            del chunk_data_p1_full
-
             # Extract and prepare input arrays
             lat = lat.squeeze().astype(np.float32)
             lon = lon.squeeze().astype(np.float32)
             area = area.squeeze().astype(np.float32)
-            next_id_start = next_id_start.squeeze()
+
+            # Keep just the time and space dimensions (N.B.: A chunk may hold a single timestep)
+            n_points = lat.shape[0]
+            chunk_data_m1 = chunk_data_m1_full.reshape(-1, n_points)[0].astype(np.int32).copy()
+            chunk_data = chunk_data_full.reshape(-1, n_points)[0].astype(np.int32).copy()
+            chunk_data_p1 = chunk_data_p1_full.reshape(-1, n_points).astype(np.int32).copy()
+            del chunk_data_full, chunk_data_m1_full, chunk_data_p1_full  # Free memory immediately
+            n_time = chunk_data_p1.shape[0]
+
+            next_id_start = next_id_start.reshape(n_time)
 
             # Handle neighbours_int with correct dimensions (nv, ncells)
             neighbours_int = neighbours_int.squeeze()
@@ -3878,9 +3881,7 @@ class tracker:
                 neighbours_int = neighbours_int.T
 
             # Handle multiple merging objects - ensure proper dimensionality
-            merging_objects = merging_objects.squeeze()
-            if merging_objects.ndim == 1:
-                merging_objects = merging_objects[:, None]  # Add dimension for max_merges
+            merging_objects = merging_objects.reshape(n_time, -1)
 
             # Pre-convert lat/lon to Cartesian coordinates for efficiency
             x = (np.cos(np.radians(lat)) * np.cos(np.radians(lon))).astype(np.float32)
@@ -3888,9 +3889,6 @@ class tracker:
             z = np.sin(np.radians(lat)).astype(np.float32)
 
             # Pre-allocate output arrays
-            n_time = chunk_data_p1.shape[0]
-            n_points = chunk_data_p1.shape[1]
-
             merge_child_ids = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.int32)
             merge_parent_ids = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.int32)
             merge_areas = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.float32)
@@ -4428,6 +4426,7 @@ class tracker:
             object_id_field_unique_m1 = object_id_field_unique.shift({self.timedim: 1}, fill_value=0)
 
             # Align chunks for better parallel processing
+            object_id_field_unique_t = object_id_field_unique.chunk({self.timedim: self.timechunks})
             object_id_field_unique_m1 = object_id_field_unique_m1.chunk({self.timedim: self.timechunks})
             object_id_field_unique_p1 = object_id_field_unique_p1.chunk({self.timedim: self.timechunks})
             merging_objects_da = merging_objects_da.chunk({self.timedim: self.timechunks})
@@ -4436,6 +4435,7 @@ class tracker:
             # Process chunks in parallel
             results = xr.apply_ufunc(
                 process_chunk,
+                object_id_field_unique_t,
                 object_id_field_unique_m1,
                 object_id_field_unique_p1,
                 merging_objects_da,
@@ -4445,6 +4445,7 @@ class tracker:
                 self.cell_area,
                 neighbours_int,
                 input_core_dims=[
+                    [self.xdim],
                     [self.xdim],
                     [self.xdim],
                     ["merges"],
@@ -4524,6 +4525,7 @@ class tracker:
 
             # Clean up temporary arrays to save memory
             del (
+                object_id_field_unique_t,
                 object_id_field_unique_p1,
                 object_id_field_unique_m1,
                 merging_objects_da,
-- 
2.43.0


From ace0b6fc4e2e28818ab9831855d0ad275621ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:59 +0000
Subject: [PATCH 13/22] fix: queue children overlapping by exactly the
 threshold for merging

The overlap criterion is inclusive everywhere else; a child overlapping a newly
divided object by exactly the threshold was never divided itself.
---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 41ea79a..449f273 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4086,7 +4086,7 @@ class tracker:
                                 min_area = min(area_0, area_1)
                                 overlap_area = area[parent_mask & potential_child_mask].sum()
 
-                                if overlap_area / min_area > self.overlap_threshold:
+                                if overlap_area / min_area >= self.overlap_threshold:
                                     new_merging_list.append(potential_child)
 
                     # Add newly found merging objects to processing queue
-- 
2.43.0


From c1b661719b8962a9bcce3f9ec80fe1b5092e6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:31 +0000
Subject: [PATCH 14/22] fix: temporary IDs of merged objects no longer collide
 between timesteps

The stride between timesteps did not cover merges of more than two parents, so
with small time chunks two unrelated objects could receive the same ID.
---
 marEx/track.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 449f273..5a3b5ba 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4411,10 +4411,8 @@ class tracker:
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
-            next_id_offsets = np.arange(n_time, dtype=np.int64) * max_merges * self.timechunks + global_id_counter
-            # N.B.: We also need to account for possibility of newly-split objects subsequently creating
-            #          more than max_merges by the end of the iteration through the chunk
-            # !!! This is likely the root cause of any errors such as "ID needs to be contiguous/continuous/full/unrepeated"
+            # N.B.: Each timestep may create up to (MAX_PARENTS - 1) new IDs in each of up to MAX_MERGES merges
+            next_id_offsets = np.arange(n_time, dtype=np.int64) * MAX_MERGES * MAX_PARENTS + global_id_counter
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-- 
2.43.0


From 2c3c0b6b18e6b3fb310b9d8acbc41cf60e189f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:06 +0000
Subject: [PATCH 15/22] fix: mapping of object IDs to times on sparsely
 populated records

The buffer for the objects at one time was sized by 100 times the mean number of
objects per timestep, which is too small (or zero) when objects are rare.
---
 marEx/track.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 5a3b5ba..70305ff 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2671,18 +2671,31 @@ class tracker:
         time_index_map : dict
             Dictionary mapping object IDs to time indices
         """
-        # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100)
+        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
+
+        # Maximum number of unique values (objects and background) at any time
+        n_unique_max = int(
+            xr.apply_ufunc(
+                lambda x: np.unique(x).size,
+                da,
+                input_core_dims=[input_dims],
+                dask="parallelized",
+                vectorize=True,
+                output_dtypes=[np.int64],
+            )
+            .max()
+            .compute()
+            .item()
+        )
 
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
             uniq = np.unique(x)
-            result = np.zeros(est_objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
+            result = np.zeros(n_unique_max, dtype=x.dtype)  # Pad output to maximum size
             result[: len(uniq)] = uniq
             return result
 
         # Get unique IDs for each time slice
-        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
         unique_ids_by_time = xr.apply_ufunc(
             unique_pad,
             da,
@@ -2690,7 +2703,7 @@ class tracker:
             output_core_dims=[["unique_values"]],
             dask="parallelized",
             vectorize=True,
-            dask_gufunc_kwargs={"output_sizes": {"unique_values": est_objects_per_time_max}},
+            dask_gufunc_kwargs={"output_sizes": {"unique_values": n_unique_max}},
         )
 
         # Set up IDs to search for
-- 
2.43.0


From 8e17b198a2e3d68a30b2b4c9c6717682cd413507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:44 +0000
Subject: [PATCH 16/22] fix: checkpoints of irregularly chunked arrays

The chunks of a DataArray are a tuple, so irregular time chunks were never
regularised; the failed write was then swallowed and None returned in place of
the data.
---
 marEx/helper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 87ea372..4f67594 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -699,8 +699,8 @@ def checkpoint_to_zarr(
 
             logger.debug(f"Attempting Zarr checkpoint: {zarr_path}")
             # Check if time dimension has irregular chunks that need fixing
-            if timedim in data.dims and timedim in data.chunks:
-                time_chunks = data.chunks[timedim]
+            if timedim in data.dims and timedim in data.chunksizes:
+                time_chunks = data.chunksizes[timedim]
                 if len(time_chunks) > 1 and len(set(time_chunks)) > 1:
                     # Chunks are irregular - need to fix for Zarr
                     first_chunk = time_chunks[0]
@@ -744,8 +744,7 @@ def checkpoint_to_zarr(
                 # Clean up failed zarr attempt
                 if zarr_path.exists():
                     shutil.rmtree(zarr_path)
-            else:
-                raise
+            raise
 
     except Exception as e:
         logger.error(f"Failed to checkpoint '{name}' to disk: {e}")
-- 
2.43.0


From 9afe2f70b91b1b222072a561485c0ad1960f2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 17/22] fix: tracking of gridded data in radians

The longitudes and latitudes of the caller's array were converted in place (and
again for every further tracker), while the mask and cell areas stayed in
radians, so any gridded input in radians failed to align.
---
 marEx/track.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 70305ff..dfbf1f8 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -396,6 +396,14 @@ class tracker:
         self.lat_init = data_bin[self.ycoord].persist()  # Save in original units
         self.lon_init = data_bin[self.xcoord].persist()
         self._unify_coordinates()
+        data_bin = self.data_bin
+        if self.coordinate_units == "radians":
+            # Keep the mask and cell areas aligned with the converted coordinates
+            unified_coords = {self.ycoord: data_bin[self.ycoord], self.xcoord: data_bin[self.xcoord]}
+            if all(coord in mask.coords for coord in unified_coords):
+                mask = mask.assign_coords(unified_coords)
+            if cell_areas is not None and all(coord in cell_areas.coords for coord in unified_coords):
+                cell_areas = cell_areas.assign_coords(unified_coords)
 
         self.mask = mask
         self.R_fill = int(R_fill)
@@ -972,8 +980,12 @@ class tracker:
 
         # Convert lat & lon to degrees
         if self.coordinate_units == "radians":
-            self.data_bin[self.xcoord] = self.data_bin[self.xcoord] * 180.0 / np.pi
-            self.data_bin[self.ycoord] = self.data_bin[self.ycoord] * 180.0 / np.pi
+            self.data_bin = self.data_bin.assign_coords(
+                {
+                    self.xcoord: self.data_bin[self.xcoord] * 180.0 / np.pi,
+                    self.ycoord: self.data_bin[self.ycoord] * 180.0 / np.pi,
+                }
+            )
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
         """Remap coordinates to original lat/lon values after processing.
-- 
2.43.0


From b2acda4bd05b79b02f38c3baca0e7f13fc19e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 18/22] fix: checkpoints of gridded data

The checkpoint directory was only recorded for unstructured grids, so saving or
loading a checkpoint of gridded data failed with an AttributeError.
---
 marEx/track.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index dfbf1f8..246f171 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -426,6 +426,7 @@ class tracker:
             )
         self.unstructured_grid = unstructured_grid
         self.checkpoint = checkpoint
+        self.scratch_dir = temp_dir
         self.debug = debug
 
         logger.debug(f"Dimensions: time={self.timedim}, x={self.xdim}, y={self.ydim}")
@@ -1265,6 +1266,13 @@ class tracker:
         if not checkpoint:
             checkpoint = self.checkpoint
 
+        if checkpoint and checkpoint != "None" and not self.scratch_dir:
+            raise ConfigurationError(
+                "Missing temporary directory for checkpoints",
+                details=f"checkpoint='{checkpoint}' requires a directory to hold the preprocessed data",
+                suggestions=["Provide temp_dir parameter: tracker(..., temp_dir='/tmp/marex')"],
+            )
+
         def load_data_from_checkpoint() -> xr.DataArray:
             """Load preprocessed data from checkpoint files."""
             data_bin_preprocessed: xr.DataArray = xr.open_zarr(
-- 
2.43.0


From 82f0ee7f1913766927568394d0fe945c183d011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:35 +0000
Subject: [PATCH 19/22] fix: checkpoints after temporal gap filling

Gap filling can leave irregular time chunks, which to_zarr refuses: saving a checkpoint crashed.
---
 marEx/track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 246f171..65e5ba9 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1338,6 +1338,8 @@ class tracker:
             with log_timing(logger, "Checkpoint saving"):
                 time.sleep(5)
                 data_bin_filtered.name = "data_bin_preproc"
+                # Temporal gap filling may leave irregular chunks, which Zarr cannot store
+                data_bin_filtered = data_bin_filtered.chunk({self.timedim: self.timechunks})
                 data_bin_filtered.to_zarr(
                     f"{self.scratch_dir}/marEx_checkpoint_proc_bin.zarr", mode="w"
                 )  # N.B.: This needs to be done without .persist() due to dask to_zarr tuple bug...
-- 
2.43.0


From 55e476b7987d715a97820a4b9ea4ad7fb567cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:35 +0000
Subject: [PATCH 20/22] fix: standardised anomalies on records without a leap
 year

The 366-day slice reached into the wrapped padding and duplicated day-of-year labels.
---
 marEx/detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 6c2e8e5..d9d48d1 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2183,7 +2183,8 @@ def _compute_anomaly_detrended(
 
         # Calculate 30-day rolling standard deviation with annual wrapped padding
         std_day_wrap = std_day.pad(dayofyear=16, mode="wrap")
-        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, 366 + 16))
+        n_days = std_day.sizes["dayofyear"]  # 365 if the record has no leap year
+        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, n_days + 16))
 
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
-- 
2.43.0


From 71dedc13df8d0ee76a9444fafe4cb4ebc6792ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:31 +0000
Subject: [PATCH 21/22] fix: splits in single-timestep chunks of gridded data

With single-timestep chunks the split pieces of an object were never
consolidated at the end of the chunk, so a later timestep recorded
spurious merges and the outcome depended on the chunking.
---
 marEx/track.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 65e5ba9..5617e73 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3609,12 +3609,15 @@ class tracker:
                 if iteration == 10:
                     logger.warning(f"Resolving mergers at timestep {absolute_t} did not converge after 10 iterations")
 
-            # End-of-chunk consolidation: consolidate the last timestep if chunk has multiple timesteps
-            if chunk_data.sizes[self.timedim] >= 2:
+            # End-of-chunk consolidation: consolidate the last timestep if there is a preceding timestep
+            if chunk_data.sizes[self.timedim] >= 2 or updated_chunks:
 
-                # Get last and second-to-last timesteps
+                # Get last and second-to-last timesteps (the latter may lie in the previous chunk)
                 last_t_data = chunk_data.isel({self.timedim: -1})
-                second_last_t_data = chunk_data.isel({self.timedim: -2})
+                if chunk_data.sizes[self.timedim] >= 2:
+                    second_last_t_data = chunk_data.isel({self.timedim: -2})
+                else:
+                    second_last_t_data = updated_chunks[-1][2].isel({self.timedim: -1})
 
                 # Consolidate last timestep using second-to-last as reference
                 consolidated_last, object_props = self.consolidate_object_ids(
-- 
2.43.0


From aad91072f80944b8f00dc5521516e049801f1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 22/22] fix: checkpoints that are deleted after reloading

---
 marEx/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index 4f67594..8e0c873 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -735,6 +735,10 @@ def checkpoint_to_zarr(
                     ds_temp = xr.open_zarr(zarr_path, chunks={})
                     reloaded = ds_temp[list(ds_temp.data_vars)[0]]
 
+            # The data are read lazily: bring them into memory before the file is deleted
+            if cleanup:
+                reloaded = reloaded.compute().chunk(reloaded.chunksizes)
+
             logger.info(f"Checkpoint '{name}' saved via Zarr: {zarr_path}")
             return reloaded
 
-- 
2.43.0

