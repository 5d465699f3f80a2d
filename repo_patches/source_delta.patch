From 71f2f5e9c45a75632ab8c1417ee7f7d3f676a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:43 +0000
Subject: [PATCH 01/44] fix: fill_holes halo covers closing and opening and
 never wraps latitude

---
 marEx/track.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dd83d63..5a4af95 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1622,7 +1622,16 @@ class tracker:
                     pass  # No morphological operations needed
                 else:
                     # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: diameter, self.xdim: diameter}, mode=mode)
+                    #  N.B.: Closing and opening each reach 2 * R_fill cells, so the halo must be 4 * R_fill wide.
+                    #        Only longitude is periodic: the first and last latitudes are not neighbours.
+                    halo = 2 * diameter
+                    data_bin = data_bin.pad({self.ydim: halo}, mode="edge")
+                    if self.regional_mode:
+                        data_bin = data_bin.pad({self.xdim: halo}, mode="edge")
+                    else:
+                        nx = data_bin.sizes[self.xdim]
+                        data_bin = data_bin.isel({self.xdim: np.arange(-halo, nx + halo) % nx})
+                    data_bin = data_bin.chunk({self.ydim: -1, self.xdim: -1})
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
@@ -1637,8 +1646,8 @@ class tracker:
                     data_bin = xr.DataArray(data_bin, coords=data_coords, dims=data_dims)
                     data_bin = data_bin.isel(
                         {
-                            self.ydim: slice(diameter, -diameter),
-                            self.xdim: slice(diameter, -diameter),
+                            self.ydim: slice(halo, -halo),
+                            self.xdim: slice(halo, -halo),
                         }
                     )
             else:  # pragma: no cover
-- 
2.43.0


From 7a4fa3316364a6c45362e189cf735c547381286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 02/44] fix: tracking a single time step no longer fails in the
 overlap search

---
 marEx/track.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 5a4af95..579f9e5 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2478,6 +2478,10 @@ class tracker:
                 * For structured grid: number of overlapping pixels (int32)
                 * For unstructured grid: total overlapping area in m^2 (float32)
         """
+        # A single time slice has no successor to overlap with
+        if object_id_field.sizes[self.timedim] < 2:
+            return np.empty((0, 3), dtype=np.float32 if self.unstructured_grid else np.int32)
+
         # Check just for overlap with next time slice.
         #  Keep a running list of all object IDs that overlap
         object_id_field_next = object_id_field.shift({self.timedim: -1}, fill_value=0)
-- 
2.43.0


From 1ec590394474541427c72c2f756c8de4a144d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/44] fix: consolidate split objects in single-timestep
 chunks so tracking does not depend on chunking

---
 marEx/track.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 579f9e5..08097fd 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3612,12 +3612,16 @@ class tracker:
                 if iteration == 10:
                     logger.warning(f"Resolving mergers at timestep {absolute_t} did not converge after 10 iterations")
 
-            # End-of-chunk consolidation: consolidate the last timestep if chunk has multiple timesteps
-            if chunk_data.sizes[self.timedim] >= 2:
+            # End-of-chunk consolidation: consolidate the last timestep against its predecessor
+            #  (which lies in the previous chunk when this chunk holds a single timestep)
+            if chunk_data.sizes[self.timedim] >= 2 or updated_chunks:
 
                 # Get last and second-to-last timesteps
                 last_t_data = chunk_data.isel({self.timedim: -1})
-                second_last_t_data = chunk_data.isel({self.timedim: -2})
+                if chunk_data.sizes[self.timedim] >= 2:
+                    second_last_t_data = chunk_data.isel({self.timedim: -2})
+                else:
+                    second_last_t_data = updated_chunks[-1][2][-1]
 
                 # Consolidate last timestep using second-to-last as reference
                 consolidated_last, object_props = self.consolidate_object_ids(
-- 
2.43.0


From b565c6c1ef1105ee07fe35788be2b45e03713344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 04/44] fix: merge_ledger lists the sibling event IDs instead
 of repeating each event's own ID

---
 marEx/track.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 08097fd..96ec2c5 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3090,8 +3090,9 @@ class tracker:
                 if IDs_at_time.ndim == 1:
                     valid_mask = IDs_at_time > 0
                     if np.any(valid_mask):
-                        # Create expanded array for sibling_ID dimension
-                        expanded_IDs = np.broadcast_to(IDs_at_time, (len(time_block.sibling_ID), len(IDs_at_time)))
+                        # Every merging ID lists all of its siblings along the sibling_ID dimension (-1 = none)
+                        siblings = np.where(valid_mask, IDs_at_time, -1)
+                        expanded_IDs = np.broadcast_to(siblings[:, np.newaxis], (len(siblings), len(IDs_at_time)))
                         result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs[:, valid_mask]
 
                 # Handle multiple mergers case
@@ -3099,10 +3100,9 @@ class tracker:
                     for merger_IDs in IDs_at_time:
                         valid_mask = merger_IDs > 0
                         if np.any(valid_mask):
-                            expanded_IDs = np.broadcast_to(
-                                merger_IDs,
-                                (len(time_block.sibling_ID), len(merger_IDs)),
-                            )
+                            # Every merging ID lists all of its siblings along the sibling_ID dimension (-1 = none)
+                            siblings = np.where(valid_mask, merger_IDs, -1)
+                            expanded_IDs = np.broadcast_to(siblings[:, np.newaxis], (len(siblings), len(merger_IDs)))
                             result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs[:, valid_mask]
 
             return result
-- 
2.43.0


From 81b0086756358aa421b125f5bf266ddb4d688040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:15 +0000
Subject: [PATCH 05/44] fix: centroids of gridded events respect longitude
 periodicity on any grid width

---
 marEx/track.py | 91 +++++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 96ec2c5..e997dae 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2080,10 +2080,6 @@ class tracker:
             # We don't need to adjust centroids for periodic boundaries
             return original_centroid
 
-        # Check if object is near either edge of x dimension
-        near_left_BC = np.any(binary_mask[:, :100])
-        near_right_BC = np.any(binary_mask[:, -100:])
-
         if original_centroid is None:  # pragma: no cover
             # Calculate y centroid from scratch
             y_indices = np.nonzero(binary_mask)[0]
@@ -2091,27 +2087,8 @@ class tracker:
         else:
             y_centroid = original_centroid[0]
 
-        # If object is near both edges, recalculate x-centroid to handle wrapping
-        # N.B.: We calculate _near_ rather than touching, to catch the edge case where the
-        # object may be split and straddling the boundary !
-        if near_left_BC and near_right_BC:
-            # Adjust x coordinates that are near right edge
-            x_indices = np.nonzero(binary_mask)[1]
-            x_indices_adj = x_indices.copy()
-            right_side = x_indices > binary_mask.shape[1] // 2
-            x_indices_adj[right_side] -= binary_mask.shape[1]
-
-            x_centroid = np.mean(x_indices_adj)
-            if x_centroid < 0:  # Ensure centroid is positive
-                x_centroid += binary_mask.shape[1]
-
-        elif original_centroid is None:  # pragma: no cover
-            # Calculate x-centroid from scratch
-            x_indices = np.nonzero(binary_mask)[1]
-            x_centroid = np.mean(x_indices)
-
-        else:
-            x_centroid = original_centroid[1]
+        # Calculate the x-centroid on the periodic axis (also catches disjoint objects straddling the boundary)
+        x_centroid = periodic_mean_index(np.nonzero(binary_mask)[-1], binary_mask.shape[-1])
 
         return (y_centroid, x_centroid)
 
@@ -3248,32 +3225,19 @@ class tracker:
 
                         # Calculate area-weighted x centroid (longitude) - handle wrapping if needed
                         if not regional_mode:
-                            # Check if object is near both edges (wrapping around periodic boundary)
-                            near_left = np.any(x_indices < 100)
-                            near_right = np.any(x_indices >= nx - 100)
-
-                            if near_left and near_right:
-                                # Object wraps around - adjust coordinates
-                                x_adjusted = x_indices.copy().astype(np.float64)
-                                right_side = x_indices > nx / 2
-                                x_adjusted[right_side] -= nx
-
-                                # Area-weighted mean with adjusted coordinates
-                                centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
-
-                                # Ensure centroid is positive
-                                if centroid_x_pix < 0:
-                                    centroid_x_pix += nx
-                            else:
-                                # No wrapping - standard area-weighted calculation
-                                centroid_x_pix = np.sum(x_indices * pixel_areas) / total_area
+                            centroid_x_pix = periodic_mean_index(x_indices, nx, weights=pixel_areas)
                         else:
                             # Regional mode - no wrapping, area-weighted
                             centroid_x_pix = np.sum(x_indices * pixel_areas) / total_area
 
                         # Convert pixel indices to coordinate values
                         centroid_lat = np.interp(centroid_y_pix, np.arange(len(lat_vals)), lat_vals)
-                        centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_vals)), lon_vals)
+                        if regional_mode or nx < 2:
+                            lon_grid = lon_vals
+                        else:
+                            # Close the circle, such that centroids between the last and first column are interpolated
+                            lon_grid = np.append(lon_vals, lon_vals[0] + np.copysign(360.0, lon_vals[-1] - lon_vals[0]))
+                        centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_grid)), lon_grid)
 
                         centroid_lats[id_idx] = centroid_lat
                         centroid_lons[id_idx] = centroid_lon
@@ -4840,6 +4804,43 @@ operations on both structured and unstructured grids.
 """
 
 
+def periodic_mean_index(
+    x_indices: NDArray[np.int64],
+    nx: int,
+    weights: Optional[NDArray[np.float32]] = None,
+) -> float:
+    """
+    (Weighted) mean of column indices on a periodic axis of size nx.
+
+    The axis is cut at the widest gap between occupied columns, such that the result does not depend on
+    where the grid happens to start. Falls back to the plain mean if all columns are occupied.
+
+    Parameters
+    ----------
+    x_indices : np.ndarray
+        Column index of every cell of the object
+    nx : int
+        Size of the periodic dimension
+    weights : np.ndarray, optional
+        Weight of every cell (default: equal weights)
+
+    Returns
+    -------
+    float
+        Mean column index in the range [0, nx)
+    """
+    columns = np.unique(x_indices)
+    gaps = np.diff(np.append(columns, columns[0] + nx))  # Distance from every occupied column to the next one
+    widest = int(np.argmax(gaps[::-1]))  # Prefer cutting at the grid boundary
+
+    x_unwrapped = x_indices.astype(np.float64)
+    if widest > 0 and gaps[::-1][widest] > gaps[-1]:
+        # Columns beyond the widest gap precede the others
+        x_unwrapped[x_indices > columns[len(columns) - 1 - widest]] -= nx
+
+    return float(np.average(x_unwrapped, weights=weights) % nx)
+
+
 @jit(nopython=True, parallel=True, fastmath=True)
 def wrapped_euclidian_distance_mask_parallel(
     mask_values: NDArray[np.bool_],
-- 
2.43.0


From d31eda5efd337198b0bd5ce358483499d971412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:11 +0000
Subject: [PATCH 06/44] fix: gridded tracking in radians aligns the mask and no
 longer modifies the caller's data

---
 marEx/track.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index e997dae..44e1eea 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -397,6 +397,14 @@ class tracker:
         self.lon_init = data_bin[self.xcoord].persist()
         self._unify_coordinates()
 
+        if self.coordinate_units == "radians":
+            # Keep the mask & cell areas aligned with the unified coordinates
+            data_bin = self.data_bin
+            unified = {coord: data_bin[coord] for coord in (self.ycoord, self.xcoord)}
+            mask = mask.assign_coords({k: v for k, v in unified.items() if k in mask.coords})
+            if cell_areas is not None:
+                cell_areas = cell_areas.assign_coords({k: v for k, v in unified.items() if k in cell_areas.coords})
+
         self.mask = mask
         self.R_fill = int(R_fill)
         self.T_fill = T_fill
@@ -971,9 +979,11 @@ class tracker:
                     )
 
         # Convert lat & lon to degrees
+        # N.B.: Assign onto a new object, such that the user's DataArray is never modified in-place
         if self.coordinate_units == "radians":
-            self.data_bin[self.xcoord] = self.data_bin[self.xcoord] * 180.0 / np.pi
-            self.data_bin[self.ycoord] = self.data_bin[self.ycoord] * 180.0 / np.pi
+            self.data_bin = self.data_bin.assign_coords(
+                {coord: self.data_bin[coord] * 180.0 / np.pi for coord in (self.ycoord, self.xcoord)}
+            )
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
         """Remap coordinates to original lat/lon values after processing.
-- 
2.43.0


From 76326f958de33cf25a62f338e4b94cb577dac6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:48 +0000
Subject: [PATCH 07/44] fix: objects exactly at the area threshold are kept
 (unstructured) and counted as accepted

---
 marEx/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 44e1eea..2da8324 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1344,7 +1344,7 @@ class tracker:
         object_areas = object_areas.compute()
         total_area_IDed = float(object_areas.sum().item())
 
-        accepted_area = float(object_areas.where(object_areas > area_threshold, drop=True).sum().item())
+        accepted_area = float(object_areas.where(object_areas >= area_threshold, drop=True).sum().item())
         accepted_area_fraction = accepted_area / total_area_IDed
 
         total_hobday_area = float(raw_area.sum().compute().item())
@@ -1855,7 +1855,7 @@ class tracker:
                 area_threshold = self.area_filter_absolute
             else:
                 area_threshold = np.percentile(object_areas, self.area_filter_quartile * 100)
-            N_objects_filtered = np.sum(object_areas > area_threshold)
+            N_objects_filtered = np.sum(object_areas >= area_threshold)
 
             def filter_area_binary(cluster_IDs_0: NDArray[np.int32], keep_IDs_0: NDArray[np.int32]) -> NDArray[np.bool_]:
                 """Keep only clusters above threshold area."""
@@ -1864,7 +1864,7 @@ class tracker:
                 return keep_where
 
             # Create filtered binary data
-            keep_IDs = xr.where(cluster_sizes > area_threshold, unique_cluster_IDs, 0)
+            keep_IDs = xr.where(cluster_sizes >= area_threshold, unique_cluster_IDs, 0)
 
             data_bin_filtered = xr.apply_ufunc(
                 filter_area_binary,
-- 
2.43.0


From 309b081d77a293834b92a205e9603a93bca1acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:05 +0000
Subject: [PATCH 08/44] fix: checkpointing works on gridded data and an
 interrupted save is never loadable

---
 marEx/track.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 2da8324..6a4a193 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -426,6 +426,7 @@ class tracker:
             )
         self.unstructured_grid = unstructured_grid
         self.checkpoint = checkpoint
+        self.scratch_dir = temp_dir
         self.debug = debug
 
         logger.debug(f"Dimensions: time={self.timedim}, x={self.xdim}, y={self.ydim}")
@@ -1328,6 +1329,9 @@ class tracker:
             with log_timing(logger, "Checkpoint saving"):
                 time.sleep(5)
                 data_bin_filtered.name = "data_bin_preproc"
+                # The stats file is written last: remove it first, such that an interrupted save cannot be loaded
+                if os.path.exists(f"{self.scratch_dir}/marEx_checkpoint_stats.npz"):
+                    os.remove(f"{self.scratch_dir}/marEx_checkpoint_stats.npz")
                 data_bin_filtered.to_zarr(
                     f"{self.scratch_dir}/marEx_checkpoint_proc_bin.zarr", mode="w"
                 )  # N.B.: This needs to be done without .persist() due to dask to_zarr tuple bug...
-- 
2.43.0


From bb90efc8346960abeaa7296e299071d9c163bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 09/44] fix: gridded nearest-neighbour partitioning finds the
 nearest parent within the search distance

---
 marEx/track.py | 54 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 6a4a193..e256d13 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5061,6 +5061,7 @@ def partition_nn_grid(
         # Create grid index for this parent
         n_grids_y = (ny + grid_size - 1) // grid_size
         n_grids_x = (nx + grid_size - 1) // grid_size
+        max_ring = min(max_distance // grid_size + 2, max(n_grids_y, n_grids_x))
         grid_points, grid_counts = create_grid_index_arrays(py, px, grid_size, ny, nx)
 
         # Process child points in parallel
@@ -5074,32 +5075,47 @@ def partition_nn_grid(
 
             min_dist_to_parent = np.inf
 
-            # Check nearby grid cells
-            for dy in range(-1, 2):
-                grid_y_check = (grid_y + dy) % n_grids_y
+            # Check rings of grid cells of increasing distance
+            for ring in range(max_ring + 1):
+                # All points in this ring (and beyond) are further away than the closest point so far
+                # N.B.: One extra ring, because the last grid cell before the periodic boundary may be narrower
+                if min_dist_to_parent <= (ring - 2) * grid_size:
+                    break
 
-                for dx in range(-1, 2):
-                    grid_x_check = (grid_x + dx) % n_grids_x
+                for dy in range(-ring, ring + 1):
+                    grid_y_check = grid_y + dy
+                    if grid_y_check < 0 or grid_y_check >= n_grids_y:
+                        continue
 
-                    # Process points in this grid cell
-                    n_points = grid_counts[grid_y_check, grid_x_check]
+                    for dx in range(-ring, ring + 1):
+                        if max(abs(dy), abs(dx)) != ring:
+                            continue
+                        grid_x_check = (grid_x + dx) % n_grids_x
 
-                    for p_idx in range(n_points):
-                        point_idx = grid_points[grid_y_check, grid_x_check, p_idx]
-                        if point_idx == -1:
-                            break
+                        # Process points in this grid cell
+                        n_points = grid_counts[grid_y_check, grid_x_check]
 
-                        dist = wrapped_euclidian_distance_points(child_y, child_x, py[point_idx], px[point_idx], Nx, half_Nx, wrap)
+                        for p_idx in range(n_points):
+                            point_idx = grid_points[grid_y_check, grid_x_check, p_idx]
+                            if point_idx == -1:
+                                break
 
-                        if dist > max_distance:
-                            continue
+                            dist = wrapped_euclidian_distance_points(
+                                child_y, child_x, py[point_idx], px[point_idx], Nx, half_Nx, wrap
+                            )
+
+                            if dist > max_distance:
+                                continue
+
+                            if dist < min_dist_to_parent:
+                                min_dist_to_parent = dist
 
-                        if dist < min_dist_to_parent:
-                            min_dist_to_parent = dist
+                            if dist < 1e-6:  # Found exact same point (within numerical precision)
+                                min_dist_to_parent = dist
+                                found_close[child_idx] = True
+                                break
 
-                        if dist < 1e-6:  # Found exact same point (within numerical precision)
-                            min_dist_to_parent = dist
-                            found_close[child_idx] = True
+                        if found_close[child_idx]:
                             break
 
                     if found_close[child_idx]:
-- 
2.43.0


From 89f3b82a7cc77d6f79303b8fba0aa530c93f9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:47 +0000
Subject: [PATCH 10/44] fix: unstructured nearest-neighbour partitioning
 advances every parent one hop at a time

---
 marEx/track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index e256d13..e4e1653 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5340,15 +5340,16 @@ def partition_nn_unstructured_optimised(
     while current_distance < max_distance and any_unassigned:
         current_distance += 1
         updates_made = False
+        frontiers_prev = parent_frontiers_working.copy()  # Every parent advances by one edge hop per step
 
         for parent_idx in range(n_parents):
             # Skip if no frontier points for this parent
-            if not np.any(parent_frontiers_working == parent_idx):
+            if not np.any(frontiers_prev == parent_idx):
                 continue
 
             # Process neighbours for current parent's frontier
             for i in range(3):
-                neighbors = neighbours_int[i, parent_frontiers_working == parent_idx]
+                neighbors = neighbours_int[i, frontiers_prev == parent_idx]
                 valid_neighbors = neighbors >= 0
 
                 if not np.any(valid_neighbors):
-- 
2.43.0


From 76236a7ee21a530f80f50aa79b9aff3c9b20eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 11/44] fix: checkpoint_to_zarr falls back to persist instead
 of returning None on irregular chunks

---
 marEx/helper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 87ea372..f7a4bae 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -699,8 +699,8 @@ def checkpoint_to_zarr(
 
             logger.debug(f"Attempting Zarr checkpoint: {zarr_path}")
             # Check if time dimension has irregular chunks that need fixing
-            if timedim in data.dims and timedim in data.chunks:
-                time_chunks = data.chunks[timedim]
+            if timedim in data.dims and timedim in data.chunksizes:
+                time_chunks = data.chunksizes[timedim]
                 if len(time_chunks) > 1 and len(set(time_chunks)) > 1:
                     # Chunks are irregular - need to fix for Zarr
                     first_chunk = time_chunks[0]
@@ -744,8 +744,7 @@ def checkpoint_to_zarr(
                 # Clean up failed zarr attempt
                 if zarr_path.exists():
                     shutil.rmtree(zarr_path)
-            else:
-                raise
+            raise  # Fall back to the in-memory persist below
 
     except Exception as e:
         logger.error(f"Failed to checkpoint '{name}' to disk: {e}")
-- 
2.43.0


From 33d916f3be50eb27bd0c9b4177a8d0725ca728f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 12/44] fix: hobday thresholds accept a single-day window

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index a0a1d07..d268544 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2365,7 +2365,7 @@ def _rolling_histogram_quantile(
 
     # Pad histogram with wrap mode for day-of-year cycling
     pad_size = window_days_hobday // 2
-    hist_pad = np.concatenate([hist_chunk[-pad_size:], hist_chunk, hist_chunk[:pad_size]], axis=0)
+    hist_pad = np.concatenate([hist_chunk[n_doy - pad_size :], hist_chunk, hist_chunk[:pad_size]], axis=0)
 
     # Apply rolling sum using stride tricks FTW
     windowed_view = sliding_window_view(hist_pad, window_days_hobday, axis=0)
-- 
2.43.0


From 77f0ed4d9c336531ed68b6e433137cf07609b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 13/44] fix: exact global percentile works on small
 unstructured grids

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index d268544..17ee896 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2761,7 +2761,7 @@ def _identify_extremes_constant(
         if "y" in dimensions:
             rechunk_size = "auto"
         else:
-            rechunk_size = 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100)
+            rechunk_size = max(100, 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100))
         # N.B.: If this rechunk_size is too small, then dask will be overwhelmed by the number of tasks
         chunk_dict = {dimensions[dim]: rechunk_size for dim in ["x", "y"] if dim in dimensions}
         chunk_dict[dimensions["time"]] = -1
-- 
2.43.0


From 94e099d74fc5333b4e554fcd34581a2c83ad8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 14/44] fix: anomalies beyond max_anomaly still count towards
 approximate percentiles

---
 marEx/detect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 17ee896..4fac866 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2493,7 +2493,8 @@ def _compute_histogram_quantile_2d(
 
     da_bin = (
         xr.DataArray(
-            np.digitize(da.data, bin_edges) - 1,  # -1 so first bin is 0
+            # -1 so first bin is 0; values above the histogram range are counted in the last bin (NaN remains excluded)
+            np.digitize(np.minimum(da.data, bin_centers_array[-1]), bin_edges) - 1,
             dims=da.dims,
             coords=da.coords,
             name="da_bin",
@@ -2643,8 +2644,8 @@ def _compute_histogram_quantile_1d(
         # Create optimised asymmetric bins
         bin_edges = np.concatenate([[-np.inf], np.arange(-precision, max_anomaly + precision, precision)])
 
-    # Compute histogram
-    hist = histogram(da, bins=[bin_edges], dim=[dim]).persist()
+    # Compute histogram (values above the histogram range are counted in the last bin)
+    hist = histogram(da.clip(max=(bin_edges[-1] + bin_edges[-2]) / 2), bins=[bin_edges], dim=[dim]).persist()
 
     # Convert to PDF and CDF
     hist_sum = hist.sum(dim=f"{da.name}_bin") + 1e-10
-- 
2.43.0


From ce6c48a633c257bd5972e7c9eb8742fe9561265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 15/44] fix: std_normalise works on time series without a leap
 day

---
 marEx/detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 4fac866..6adf79b 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2183,7 +2183,9 @@ def _compute_anomaly_detrended(
 
         # Calculate 30-day rolling standard deviation with annual wrapped padding
         std_day_wrap = std_day.pad(dayofyear=16, mode="wrap")
-        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, 366 + 16))
+        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(
+            dayofyear=slice(16, std_day.sizes["dayofyear"] + 16)  # 365 or 366 days
+        )
 
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
-- 
2.43.0


From d2bbeef50fcb2461d3c70903870c9a921c72c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 16/44] fix: a single missing anomaly no longer disables the
 approximate global threshold

---
 marEx/detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 6adf79b..2045032 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2706,8 +2706,8 @@ def _compute_histogram_quantile_1d(
     no_exact_match = zero_denom & ~exact_match
     threshold = xr.where(no_exact_match, (bin_lower + bin_upper) / 2, threshold)
 
-    # Set threshold to NaN for spatial points that contain NaN values
-    nan_mask = da.isnull().any(dim=dim)
+    # Set threshold to NaN for spatial points without any valid values
+    nan_mask = da.isnull().all(dim=dim)
     threshold = threshold.where(~nan_mask).drop_vars(f"{da.name}_bin").persist()
 
     # Validate threshold against bounds
-- 
2.43.0


From 4c487c98c91847f1babd4d4917fa5edf91455c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:50 +0000
Subject: [PATCH 17/44] fix: gridded nearest-neighbour partitioning falls back
 to centroids beyond the search distance

---
 marEx/track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index e4e1653..3dbb18f 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5049,7 +5049,7 @@ def partition_nn_grid(
     n_child_points = len(y_indices)
 
     min_distances = np.full(n_child_points, np.inf)
-    parent_assignments = np.zeros(n_child_points, dtype=np.int32)
+    parent_assignments = np.full(n_child_points, -1, dtype=np.int32)  # -1 = No parent found (yet)
     found_close = np.zeros(n_child_points, dtype=np.bool_)
 
     for parent_idx in range(n_parents):
@@ -5130,7 +5130,8 @@ def partition_nn_grid(
                 parent_assignments[child_idx] = parent_idx
 
     # Handle any unassigned points using centroids
-    unassigned = min_distances == np.inf
+    # N.B.: Infinities cannot be compared with fastmath
+    unassigned = parent_assignments < 0
     if np.any(unassigned):
         for child_idx in np.nonzero(unassigned)[0]:
             child_y, child_x = y_indices[child_idx], x_indices[child_idx]
-- 
2.43.0


From acced1a0918636957dc69711b5fbb167bc62d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:18 +0000
Subject: [PATCH 18/44] fix: unstructured centroid partitioning labels only the
 child's cells, among its actual parents

---
 marEx/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 3dbb18f..05e2053 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4060,7 +4060,7 @@ class tracker:
                         new_labels_uint = partition_nn_unstructured_optimised(
                             child_mask.copy(),
                             parent_masks_uint.copy(),
-                            parent_centroids,
+                            parent_centroids[:n_parents],
                             neighbours_int.copy(),
                             lat,
                             lon,
@@ -4074,7 +4074,9 @@ class tracker:
 
                     else:
                         # Use centroid-based partitioning
-                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids, child_ids, lat, lon)
+                        new_labels = partition_centroid_unstructured(
+                            child_mask, parent_centroids[:n_parents], child_ids, lat, lon
+                        )
 
                     # Update slice data for subsequent merging in process_chunk
                     data_t[child_mask] = new_labels
@@ -5466,7 +5468,8 @@ def partition_centroid_unstructured(
 
         new_labels[i] = child_ids[closest_parent]
 
-    return new_labels
+    # Return only the assignments for points in child_mask
+    return new_labels[child_mask]
 
 
 @njit(fastmath=True, parallel=True)
-- 
2.43.0


From 3ac96767b5bf9efda6a808e02c24667b8b68e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:18 +0000
Subject: [PATCH 19/44] fix: unstructured merging follows children whose
 overlap equals the threshold

---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 05e2053..cb71ebe 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4110,7 +4110,7 @@ class tracker:
                                 min_area = min(area_0, area_1)
                                 overlap_area = area[parent_mask & potential_child_mask].sum()
 
-                                if overlap_area / min_area > self.overlap_threshold:
+                                if overlap_area / min_area >= self.overlap_threshold:
                                     new_merging_list.append(potential_child)
 
                     # Add newly found merging objects to processing queue
-- 
2.43.0


From 51c50ec6137ec4d4094730035b7c5ec96aea4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 20/44] fix: unstructured merging reserves enough new IDs per
 timestep and enforces its merge limit

---
 marEx/track.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index cb71ebe..e888d99 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4029,7 +4029,7 @@ class tracker:
 
                     # Record merge event
                     curr_merge_idx = merge_counts[t]
-                    if curr_merge_idx > MAX_MERGES:  # pragma: no cover
+                    if curr_merge_idx >= MAX_MERGES:  # pragma: no cover
                         raise TrackingError(
                             "Too many merge operations",
                             details=f"Timestep {t} requires {curr_merge_idx} merges (limit: {MAX_MERGES})",
@@ -4122,7 +4122,10 @@ class tracker:
                     else:
                         # Record for next chunk
                         for new_object_id in new_merging_list:
-                            if final_merge_count > MAX_MERGES:  # pragma: no cover
+                            if np.any(final_merging_objects[t][:final_merge_count] == new_object_id):
+                                continue  # Already recorded
+
+                            if final_merge_count >= MAX_MERGES:  # pragma: no cover
                                 raise TrackingError(
                                     "Excessive merge operations detected",
                                     details=f"Final merge count {final_merge_count} exceeds limit {MAX_MERGES} at timestep {t}",
@@ -4137,9 +4140,8 @@ class tracker:
                                     },
                                 )
 
-                            if not np.any(final_merging_objects[t][:final_merge_count] == new_object_id):
-                                final_merging_objects[t][final_merge_count] = new_object_id
-                                final_merge_count += 1
+                            final_merging_objects[t][final_merge_count] = new_object_id
+                            final_merge_count += 1
 
             return (
                 merge_child_ids,
@@ -4435,10 +4437,8 @@ class tracker:
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
-            next_id_offsets = np.arange(n_time, dtype=np.int64) * max_merges * self.timechunks + global_id_counter
-            # N.B.: We also need to account for possibility of newly-split objects subsequently creating
-            #          more than max_merges by the end of the iteration through the chunk
-            # !!! This is likely the root cause of any errors such as "ID needs to be contiguous/continuous/full/unrepeated"
+            #   N.B.: A timestep creates at most (MAX_PARENTS - 1) new IDs for each of its (at most MAX_MERGES) merges
+            next_id_offsets = np.arange(n_time, dtype=np.int64) * MAX_MERGES * MAX_PARENTS + global_id_counter
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-- 
2.43.0


From d6a256937e86e15429be0cadb0c0f30919621eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 21/44] fix: unstructured merging works when long series hold
 few objects

---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index e888d99..97fffa3 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2686,7 +2686,7 @@ class tracker:
             Dictionary mapping object IDs to time indices
         """
         # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100)
+        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100) + 100
 
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
-- 
2.43.0


From 117b8ff404e74945a9f0bf3f2ba2189bf7a35c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 22/44] fix: unstructured merging works with single-timestep
 chunks

---
 marEx/track.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 97fffa3..9a5edc6 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3826,6 +3826,7 @@ class tracker:
 
         def process_chunk(
             chunk_data_m1_full: NDArray[np.int32],
+            chunk_data_full: NDArray[np.int32],
             chunk_data_p1_full: NDArray[np.int32],
             merging_objects: NDArray[np.int64],
             next_id_start: NDArray[np.int64],
@@ -3853,7 +3854,9 @@ class tracker:
             Parameters
             ----------
             chunk_data_m1_full : numpy.ndarray
-                Data from previous timestep (t-1) and current timestep (t)
+                Data from previous timestep (t-1)
+            chunk_data_full : numpy.ndarray
+                Data from current timestep (t)
             chunk_data_p1_full : numpy.ndarray
                 Data from next timestep (t+1)
             merging_objects : (n_time, max_merges) numpy.ndarray
@@ -3877,20 +3880,22 @@ class tracker:
             #    N.B.: This is a weird artefact/choice of xarray apply_ufunc broadcasting...
             #           (i.e. 'nv' dimension gets injected into all the other arrays!)
 
-            chunk_data_m1 = chunk_data_m1_full.squeeze()[0].astype(np.int32).copy()
-            chunk_data = chunk_data_m1_full.squeeze()[1].astype(np.int32).copy()
-            del chunk_data_m1_full  # Free memory immediately
             chunk_data_p1 = chunk_data_p1_full.astype(np.int32).copy()
             # Remove any singleton dimensions except time and space
             while chunk_data_p1.ndim > 2:
                 chunk_data_p1 = chunk_data_p1.squeeze(axis=-1)
             del chunk_data_p1_full
+            n_time, n_points = chunk_data_p1.shape
+
+            chunk_data_m1 = chunk_data_m1_full.reshape(n_time, n_points)[0].astype(np.int32).copy()
+            chunk_data = chunk_data_full.reshape(n_time, n_points)[0].astype(np.int32).copy()
+            del chunk_data_m1_full, chunk_data_full  # Free memory immediately
 
             # Extract and prepare input arrays
             lat = lat.squeeze().astype(np.float32)
             lon = lon.squeeze().astype(np.float32)
             area = area.squeeze().astype(np.float32)
-            next_id_start = next_id_start.squeeze()
+            next_id_start = next_id_start.reshape(n_time)
 
             # Handle neighbours_int with correct dimensions (nv, ncells)
             neighbours_int = neighbours_int.squeeze()
@@ -3898,9 +3903,7 @@ class tracker:
                 neighbours_int = neighbours_int.T
 
             # Handle multiple merging objects - ensure proper dimensionality
-            merging_objects = merging_objects.squeeze()
-            if merging_objects.ndim == 1:
-                merging_objects = merging_objects[:, None]  # Add dimension for max_merges
+            merging_objects = merging_objects.reshape(n_time, -1)
 
             # Pre-convert lat/lon to Cartesian coordinates for efficiency
             x = (np.cos(np.radians(lat)) * np.cos(np.radians(lon))).astype(np.float32)
@@ -3908,9 +3911,6 @@ class tracker:
             z = np.sin(np.radians(lat)).astype(np.float32)
 
             # Pre-allocate output arrays
-            n_time = chunk_data_p1.shape[0]
-            n_points = chunk_data_p1.shape[1]
-
             merge_child_ids = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.int32)
             merge_parent_ids = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.int32)
             merge_areas = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.float32)
@@ -4459,6 +4459,7 @@ class tracker:
             results = xr.apply_ufunc(
                 process_chunk,
                 object_id_field_unique_m1,
+                object_id_field_unique.chunk({self.timedim: self.timechunks}),
                 object_id_field_unique_p1,
                 merging_objects_da,
                 next_id_offsets_da,
@@ -4467,6 +4468,7 @@ class tracker:
                 self.cell_area,
                 neighbours_int,
                 input_core_dims=[
+                    [self.xdim],
                     [self.xdim],
                     [self.xdim],
                     ["merges"],
-- 
2.43.0


From 1d08a1d69909f67ea1726220eee1ba7790318297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:01 +0000
Subject: [PATCH 23/44] fix: unstructured hole filling removes land so land
 never spills into the ocean

---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 9a5edc6..8334986 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1690,8 +1690,8 @@ class tracker:
                     dask="parallelized",
                 )
 
-            # Mask out edge features from morphological operations
-            data_bin = data_bin.where(self.mask, drop=False, other=False)
+        # Mask out edge features from morphological operations
+        data_bin = data_bin.where(self.mask, drop=False, other=False)
 
         return data_bin
 
-- 
2.43.0


From 55d308b53bc51dad9121c52f00280b3f7f8cb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:10 +0000
Subject: [PATCH 24/44] fix: unstructured merging accepts a time coordinate
 named differently from its dimension

---
 marEx/track.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 8334986..789aa96 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4329,9 +4329,9 @@ class tracker:
                 return chunk_data  # Return original data for dask graph consistency
 
             # Create time indices for slicing
-            time_coords = object_id_field[self.timecoord].values
+            time_coords = object_id_field[self.timedim].values
             time_indices = np.arange(len(time_coords), dtype=np.int32)
-            time_index_da = xr.DataArray(time_indices, dims=[self.timedim], coords={self.timecoord: time_coords})
+            time_index_da = xr.DataArray(time_indices, dims=[self.timedim], coords={self.timedim: time_coords})
 
             # Create dataset with all necessary components
             ds = xr.Dataset(
@@ -4400,7 +4400,7 @@ class tracker:
             tuple
                 (updated_field, merge_data, new_merging_objects, updated_counter)
             """
-            n_time = len(object_id_field_unique[self.timecoord])
+            n_time = len(object_id_field_unique[self.timedim])
 
             # Pre-allocate arrays for this iteration
             child_ids_iter = np.full(
@@ -4433,7 +4433,7 @@ class tracker:
             merging_objects_da = xr.DataArray(
                 uniform_merging_objects_array,
                 dims=[self.timedim, "merges"],
-                coords={self.timecoord: object_id_field_unique[self.timecoord]},
+                coords={self.timedim: object_id_field_unique[self.timedim]},
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
@@ -4442,7 +4442,7 @@ class tracker:
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-                coords={self.timecoord: object_id_field_unique[self.timecoord]},
+                coords={self.timedim: object_id_field_unique[self.timedim]},
             )
 
             # Create shifted arrays for time connectivity
@@ -4745,7 +4745,7 @@ class tracker:
 
         # Process the collected merge events
 
-        times = object_id_field_unique[self.timecoord].values
+        times = object_id_field_unique[self.timedim].values
 
         # Find maximum dimensions for arrays
         # Handle case where there are no merge events
-- 
2.43.0


From b6cd4b411b69830b826558e05b01caab5eb47116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:26 +0000
Subject: [PATCH 25/44] fix: multi-chunk cell areas and neighbours are
 rechunked as announced

---
 marEx/track.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 789aa96..fc84a83 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -483,6 +483,9 @@ class tracker:
                 logger.info("Using provided cell_areas for structured grid")
 
         # Store cell_areas for both grid types
+        # N.B.: Cell areas are used as a core dimension, so must be in a single chunk
+        if cell_areas.chunks is not None:
+            cell_areas = cell_areas.chunk({dim: -1 for dim in cell_areas.dims})
         self.cell_area = cell_areas.astype(np.float32).persist()
         if self.unstructured_grid:
             # Remove coordinate variables for unstructured
@@ -1068,6 +1071,8 @@ class tracker:
         self._validate_unstructured_chunking(neighbours, cell_areas)
 
         # Initialise dilation array for unstructured grid
+        if neighbours.chunks is not None:
+            neighbours = neighbours.chunk({dim: -1 for dim in neighbours.dims})
         self.neighbours_int = neighbours.astype(np.int32) - 1  # Convert to 0-based indexing
 
         # Validate neighbour array structure
-- 
2.43.0


From 87cd814ca772c6338361e193785ed4678fbd5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:33 +0000
Subject: [PATCH 26/44] fix: shifting baseline refuses series with no year left
 after the baseline

---
 marEx/detect.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 2045032..a77813c 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -600,11 +600,12 @@ def preprocess_data(
 
         logger.info(f"Shifting baseline data validation: {total_years} years available ({min_year}-{max_year})")
 
-        if total_years < window_year_baseline:
-            logger.error(f"Insufficient data: {total_years} years < {window_year_baseline} required")
+        # At least one year must remain after the first window_year_baseline years are removed
+        if total_years <= window_year_baseline:
+            logger.error(f"Insufficient data: {total_years} years <= {window_year_baseline} baseline years")
             raise create_data_validation_error(
                 "Insufficient data for shifting_baseline method",
-                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline} years",
+                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline + 1} years",
                 suggestions=[
                     "Use more years of data to meet minimum requirement",
                     f"Reduce window_year_baseline parameter (currently {window_year_baseline})",
@@ -612,7 +613,7 @@ def preprocess_data(
                 ],
                 data_info={
                     "available_years": int(total_years),
-                    "required_years": int(window_year_baseline),
+                    "required_years": int(window_year_baseline + 1),
                 },
             )
 
-- 
2.43.0


From 335cbb7314d4c6f07eee55b1b376d2c43fe79d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:51 +0000
Subject: [PATCH 27/44] fix: checkpoint_to_zarr reads the data before deleting
 its file on cleanup

---
 marEx/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index f7a4bae..028bbba 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -735,6 +735,10 @@ def checkpoint_to_zarr(
                     ds_temp = xr.open_zarr(zarr_path, chunks={})
                     reloaded = ds_temp[list(ds_temp.data_vars)[0]]
 
+            if cleanup:
+                # The reloaded data is lazy: read it before its file is deleted below
+                reloaded = reloaded.persist()
+
             logger.info(f"Checkpoint '{name}' saved via Zarr: {zarr_path}")
             return reloaded
 
-- 
2.43.0


From b68bfe815a97aa490512531b49488076d4cfea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 28/44] fix: approximate global threshold handles percentiles
 that are negative

---
 marEx/detect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/detect.py b/marEx/detect.py
index a77813c..552659b 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2664,6 +2664,7 @@ def _compute_histogram_quantile_1d(
     # Find first bin where CDF >= (q - eps) - this becomes upper bound
     cdf_above_q = cdf >= (q - eps)
     idx_upper = cdf_above_q.argmax(dim=f"{da.name}_bin")
+    in_first_bin = idx_upper == 0
 
     # Get CDF value one point to the left of idx_upper
     idx_before_upper = xr.where(idx_upper - 1 > 0, idx_upper - 1, 0)
@@ -2707,6 +2708,9 @@ def _compute_histogram_quantile_1d(
     no_exact_match = zero_denom & ~exact_match
     threshold = xr.where(no_exact_match, (bin_lower + bin_upper) / 2, threshold)
 
+    # If at the first bin (quantile is negative), use the first bin center
+    threshold = xr.where(in_first_bin, bin_centers[0], threshold)
+
     # Set threshold to NaN for spatial points without any valid values
     nan_mask = da.isnull().all(dim=dim)
     threshold = threshold.where(~nan_mask).drop_vars(f"{da.name}_bin").persist()
-- 
2.43.0


From 2dea131e325b0ef00358b6bad9c8cd3ae711a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:57 +0000
Subject: [PATCH 29/44] fix: gridded merging records each merger once when
 centroid partitioning leaves an object whole

---
 marEx/track.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index fc84a83..0135a21 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3435,11 +3435,13 @@ class tracker:
                 #  Only modifies data_t, which contains the children to be partitioned/relabelled
                 timestep_converged = False
                 iteration = 0
+                undivided_children: List[int] = []  # Children which partitioning leaves whole: nothing more to resolve
 
                 while not timestep_converged and iteration < 10:  # Prevent infinite loops
                     # Find merging objects for current timestep
                     unique_children, children_counts = np.unique(timestep_overlaps[:, 1], return_counts=True)
                     merging_children = unique_children[children_counts > 1]
+                    merging_children = merging_children[~np.isin(merging_children, undivided_children)]
 
                     if len(merging_children) == 0:
                         timestep_converged = True
@@ -3469,12 +3471,6 @@ class tracker:
                         timestep_overlaps[child_where[1:], 1] = new_object_id
                         child_ids = np.concatenate((np.array([child_id]), new_object_id))
 
-                        # Record merge event - extract time value using dimension name
-                        merge_times.append(data_t.coords[self.timedim].values)
-                        merge_child_ids.append(child_ids)
-                        merge_parent_ids.append(parent_ids)
-                        merge_areas.append(timestep_overlaps[child_mask, 2])
-
                         # Relabel the Original Child Object ID Field to account for the New ID:
                         # Get parent centroids for partitioning
                         parent_centroids = object_props.sel(ID=parent_ids).centroid.values.T
@@ -3552,6 +3548,17 @@ class tracker:
                                 # Assign based on closest parent
                                 new_labels = child_ids[np.argmin(distances, axis=1).astype(np.int32)]
 
+                        if np.all(new_labels == new_labels[0]):
+                            undivided_children.append(new_labels[0])
+
+                        # Record merge event - extract time value using dimension name
+                        #   N.B.: A piece of an already recorded merger that is not divided any further is not a new merger
+                        if iteration == 0 or new_labels[0] not in undivided_children:
+                            merge_times.append(data_t.coords[self.timedim].values)
+                            merge_child_ids.append(child_ids)
+                            merge_parent_ids.append(parent_ids)
+                            merge_areas.append(timestep_overlaps[child_mask, 2])
+
                         # Update values in data_t and assign the updated slice back to the chunk
                         temp = np.zeros_like(data_t)
                         temp[child_mask_2d] = new_labels
-- 
2.43.0


From ca01779748e193f8effe1d24d564477d967d12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 30/44] fix: get_logger never replaces an explicit logging
 configuration

---
 marEx/logging_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marEx/logging_config.py b/marEx/logging_config.py
index c112499..b8033b0 100644
--- a/marEx/logging_config.py
+++ b/marEx/logging_config.py
@@ -56,14 +56,11 @@ def get_logger(name: str = "marEx") -> logging.Logger:
     Returns:
         Configured logger instance
     """
-    global _logger_configured
-
     logger = logging.getLogger(name)
 
     # Configure the root marEx logger only once
     if not _logger_configured and name == "marEx":
         configure_logging()
-        _logger_configured = True
 
     return logger
 
@@ -91,7 +88,10 @@ def configure_logging(
         verbose: Enable verbose mode (detailed logging with DEBUG level)
         quiet: Enable quiet mode (minimal logging with WARNING level)
     """
-    global _current_verbosity_level
+    global _current_verbosity_level, _logger_configured
+
+    # An explicit configuration is never replaced by the default one of get_logger()
+    _logger_configured = True
 
     # Handle verbose/quiet mode precedence
     if verbose is None:
-- 
2.43.0


From 397420b47262432c095d312a9e8ea628cdae14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 31/44] fix: gridded plots draw fields whatever the order of
 their dimensions

---
 marEx/plotX/gridded.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marEx/plotX/gridded.py b/marEx/plotX/gridded.py
index cacdfc2..f88a546 100644
--- a/marEx/plotX/gridded.py
+++ b/marEx/plotX/gridded.py
@@ -88,6 +88,9 @@ class GriddedPlotter(PlotterBase):
                 plot_kwargs["vmin"] = clim[0]
                 plot_kwargs["vmax"] = clim[1]
 
+            # Meshes are drawn with rows along y and columns along x, whatever the order in the input
+            data = data.transpose(..., self.dimensions["y"], self.dimensions["x"])
+
             lons = data[self.dimensions["x"]].values
             lats = data[self.dimensions["y"]].values
             values = data.values
-- 
2.43.0


From b1d0202ad5ea3fafc18488b3c890049cb041520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 32/44] fix: panels and animations honour dimension names,
 single panels and named colour maps

---
 marEx/plotX/base.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index e8d7bb3..94b98a0 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -356,10 +356,10 @@ class PlotterBase:
         cmap, norm, clim, var_units, extend = self._setup_common_params(config)
 
         fig = plt.figure(figsize=(6 * ncols, 3 * nrows))
-        axes = fig.subplots(nrows, ncols, subplot_kw={"projection": config.projection}).flatten()
+        axes = fig.subplots(nrows, ncols, subplot_kw={"projection": config.projection}, squeeze=False).flatten()
 
         # Create a single plotter instance to be reused
-        base_plotter = type(self)(self.da)
+        base_plotter = type(self)(self.da, self.dimensions, self.coordinates)
         for attr in ["fpath_tgrid", "fpath_ckdtree"]:
             if hasattr(self, attr):
                 setattr(base_plotter, attr, getattr(self, attr))
@@ -449,7 +449,7 @@ class PlotterBase:
         temp_dir = Path(tempfile.mkdtemp(prefix="marex_animate_", dir=dask_temp))
 
         if not file_name:
-            file_name = f"movie_{self.da.name}.mp4"
+            file_name = f"movie_{self.da.name}"
 
         output_file = plot_dir / f"{file_name}.mp4"
 
@@ -464,6 +464,7 @@ class PlotterBase:
             "extend": extend,
             "show_colorbar": config.show_colorbar,
             "grid_labels": config.grid_labels,
+            "dimensions": self.dimensions,
         }
 
         # Set up grid information if needed
@@ -585,6 +586,8 @@ class PlotterBase:
         if cmap is None:
             np.random.seed(42)
             cmap = ListedColormap(np.random.random(size=(n_bins, 3)))
+        elif isinstance(cmap, str):
+            cmap = plt.get_cmap(cmap, n_bins)
 
         norm = BoundaryNorm(bounds, cmap.N)
         return cmap, norm, "ID"
@@ -624,6 +627,11 @@ def make_frame(
     fig = plt.figure(figsize=(7, 5))
     ax = plt.axes(projection=ccrs.Robinson())
 
+    dimensions = plot_params.get("dimensions") or {}
+    xdim, ydim = dimensions.get("x", "lon"), dimensions.get("y", "lat")
+    if ydim in data_slice.dims:
+        data_slice = data_slice.transpose(..., ydim, xdim)
+
     data_slice_np = data_slice.values
 
     # Set up plot kwargs
@@ -665,11 +673,12 @@ def make_frame(
             # Use triangulation
             triang = _load_triangulation(grid_info["tgrid_path"])
             data_masked = np.ma.masked_invalid(data_slice_np)
+            plot_kwargs.pop("shading")  # N.B.: 'auto' shading is not supported by tripcolor
             im = ax.tripcolor(triang, data_masked, **plot_kwargs)
     else:
         # Regular grid plotting
-        lat = data_slice.lat.values
-        lon = data_slice.lon.values
+        lat = data_slice[ydim].values
+        lon = data_slice[xdim].values
         im = ax.pcolormesh(lon, lat, data_slice_np, **plot_kwargs)
 
     time_str = plot_params.get("time_str", f"Frame {time_ind}")
@@ -691,8 +700,8 @@ def make_frame(
                     pass
                 else:
                     # Regular grid plotting - use lat/lon coordinates
-                    lat = data_slice.lat.values
-                    lon = data_slice.lon.values
+                    lat = data_slice[ydim].values
+                    lon = data_slice[xdim].values
 
                     # Draw contours around object boundaries (treating all IDs > 0 the same)
                     ax.contour(
-- 
2.43.0


From d93ead0073676cdf3069ae0d64bba01e3cf21607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 33/44] fix: error text includes later suggestions and context,
 caller's lists stay untouched

---
 marEx/exceptions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/marEx/exceptions.py b/marEx/exceptions.py
index 0d759de..36c8e95 100644
--- a/marEx/exceptions.py
+++ b/marEx/exceptions.py
@@ -44,14 +44,18 @@ class MarExError(Exception):
         """Initialise the Error."""
         self.message = message
         self.details = details
-        self.suggestions = suggestions or []
+        self.suggestions = list(suggestions) if suggestions else []
         self.error_code = error_code
-        self.context = context or {}
+        self.context = dict(context) if context else {}
 
         # Build comprehensive error message
         full_message = self._format_error_message()
         super().__init__(full_message)
 
+    def __str__(self) -> str:
+        """Describe the error, including suggestions and context added after construction."""
+        return self._format_error_message()
+
     def _format_error_message(self) -> str:
         """Format a comprehensive error message with all available information."""
         parts = [self.message]
@@ -353,7 +357,7 @@ def create_data_validation_error(message: str, data_info: Optional[Dict[str, Any
     DataValidationError
         Configured exception with data context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if data_info:
         context.update(data_info)
     kwargs["context"] = context
@@ -385,7 +389,7 @@ def create_coordinate_error(
     CoordinateError
         Configured exception with coordinate context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if coordinate_ranges:
         context["coordinate_ranges"] = coordinate_ranges
     if detected_system:
@@ -412,7 +416,7 @@ def create_processing_error(message: str, computation_info: Optional[Dict[str, A
     ProcessingError
         Configured exception with computation context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if computation_info:
         context.update(computation_info)
     kwargs["context"] = context
-- 
2.43.0


From 83b9860e2b673e05a325b233bf26522487fa7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 34/44] fix: dependency tracking checks whether optional
 packages can be imported

---
 marEx/_dependencies.py | 88 ++++++++++--------------------------------
 1 file changed, 20 insertions(+), 68 deletions(-)

diff --git a/marEx/_dependencies.py b/marEx/_dependencies.py
index c9d2878..1912398 100644
--- a/marEx/_dependencies.py
+++ b/marEx/_dependencies.py
@@ -1,6 +1,7 @@
 """Dependency management for marEx."""
 
 import warnings
+from importlib.util import find_spec
 from typing import Dict, List
 
 
@@ -14,74 +15,25 @@ class DependencyTracker:
 
     def _check_all_dependencies(self) -> None:
         """Check availability of all optional dependencies."""
-        # Performance dependencies
-        try:
-            pass
-
-            self._dependencies["jax"] = True
-        except ImportError:
-            self._dependencies["jax"] = False
-
-        try:
-            pass
-
-            self._dependencies["jaxlib"] = True
-        except ImportError:
-            self._dependencies["jaxlib"] = False
-
-        # HPC dependencies
-        try:
-            pass
-
-            self._dependencies["dask_jobqueue"] = True
-        except (ImportError, ValueError):
-            # ValueError can occur when importing dask_jobqueue in worker threads
-            # due to signal handling limitations
-            self._dependencies["dask_jobqueue"] = False
-
-        try:
-            pass
-
-            self._dependencies["psutil"] = True
-        except ImportError:
-            self._dependencies["psutil"] = False
-
-        # Visualisation dependencies
-        try:
-            pass
-
-            self._dependencies["matplotlib"] = True
-        except ImportError:
-            self._dependencies["matplotlib"] = False
-
-        try:
-            pass
-
-            self._dependencies["cartopy"] = True
-        except ImportError:
-            self._dependencies["cartopy"] = False
-
-        try:
-            pass
-
-            self._dependencies["seaborn"] = True
-        except ImportError:
-            self._dependencies["seaborn"] = False
-
-        try:
-            pass
-
-            self._dependencies["cmocean"] = True
-        except ImportError:
-            self._dependencies["cmocean"] = False
-
-        # PIL for image processing
-        try:
-            pass
-
-            self._dependencies["pillow"] = True
-        except ImportError:
-            self._dependencies["pillow"] = False
+        # Module providing each dependency, if named differently
+        modules = {"pillow": "PIL"}
+
+        for dep_name in (
+            # Performance dependencies
+            "jax",
+            "jaxlib",
+            # HPC dependencies
+            "dask_jobqueue",
+            "psutil",
+            # Visualisation dependencies
+            "matplotlib",
+            "cartopy",
+            "seaborn",
+            "cmocean",
+            # PIL for image processing
+            "pillow",
+        ):
+            self._dependencies[dep_name] = find_spec(modules.get(dep_name, dep_name)) is not None
 
     def has_dependency(self, dep_name: str) -> bool:
         """Check if a specific dependency is available."""
-- 
2.43.0


From 7fa134b82fddf7008b7372f2d0ea4bc702e781f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 35/44] fix: radians coordinates accept masks and cell areas
 that lack a coordinate's dimension so errors stay typed

---
 marEx/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 0135a21..495d201 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -401,9 +401,11 @@ class tracker:
             # Keep the mask & cell areas aligned with the unified coordinates
             data_bin = self.data_bin
             unified = {coord: data_bin[coord] for coord in (self.ycoord, self.xcoord)}
-            mask = mask.assign_coords({k: v for k, v in unified.items() if k in mask.coords})
+            mask = mask.assign_coords({k: v for k, v in unified.items() if k in mask.coords and set(v.dims) <= set(mask.dims)})
             if cell_areas is not None:
-                cell_areas = cell_areas.assign_coords({k: v for k, v in unified.items() if k in cell_areas.coords})
+                cell_areas = cell_areas.assign_coords(
+                    {k: v for k, v in unified.items() if k in cell_areas.coords and set(v.dims) <= set(cell_areas.dims)}
+                )
 
         self.mask = mask
         self.R_fill = int(R_fill)
-- 
2.43.0


From 6c0f00c88120c7c042719e25b28a137eacb872c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 36/44] fix: merge records count more than 127 parents

---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 495d201..f70c542 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3791,11 +3791,11 @@ class tracker:
                 "merge_time": ("merge_ID", merge_times),
                 "n_parents": (
                     "merge_ID",
-                    np.array([len(p) for p in merge_parent_ids], dtype=np.int8),
+                    np.array([len(p) for p in merge_parent_ids], dtype=np.int32),
                 ),
                 "n_children": (
                     "merge_ID",
-                    np.array([len(c) for c in merge_child_ids], dtype=np.int8),
+                    np.array([len(c) for c in merge_child_ids], dtype=np.int32),
                 ),
             },
             attrs={"fill_value": -1},
-- 
2.43.0


From b7cd547c18c293fb05acc18dc1316891cc54fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 37/44] fix: unstructured merging works when one step of a long
 series holds many objects

---
 marEx/track.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index f70c542..9fc7bbf 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2692,18 +2692,28 @@ class tracker:
         time_index_map : dict
             Dictionary mapping object IDs to time indices
         """
-        # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100) + 100
+        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
+
+        # Count the largest number of unique IDs (including background) in any time slice
+        unique_ids_per_time_max = int(
+            xr.apply_ufunc(
+                lambda x: np.unique(x).size,
+                da,
+                input_core_dims=[input_dims],
+                dask="parallelized",
+                vectorize=True,
+                output_dtypes=[np.int64],
+            ).max()
+        )
 
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
             uniq = np.unique(x)
-            result = np.zeros(est_objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
+            result = np.zeros(unique_ids_per_time_max, dtype=x.dtype)  # Pad output to maximum size
             result[: len(uniq)] = uniq
             return result
 
         # Get unique IDs for each time slice
-        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
         unique_ids_by_time = xr.apply_ufunc(
             unique_pad,
             da,
@@ -2711,7 +2721,7 @@ class tracker:
             output_core_dims=[["unique_values"]],
             dask="parallelized",
             vectorize=True,
-            dask_gufunc_kwargs={"output_sizes": {"unique_values": est_objects_per_time_max}},
+            dask_gufunc_kwargs={"output_sizes": {"unique_values": unique_ids_per_time_max}},
         )
 
         # Set up IDs to search for
-- 
2.43.0


From f1b0832969d0444be077c5ac810767f316f43db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:36 +0000
Subject: [PATCH 38/44] fix: a missing coordinate is refused also when units
 are radians

---
 marEx/track.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 9fc7bbf..8e951ef 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -988,7 +988,11 @@ class tracker:
         # N.B.: Assign onto a new object, such that the user's DataArray is never modified in-place
         if self.coordinate_units == "radians":
             self.data_bin = self.data_bin.assign_coords(
-                {coord: self.data_bin[coord] * 180.0 / np.pi for coord in (self.ycoord, self.xcoord)}
+                {
+                    coord: self.data_bin[coord] * 180.0 / np.pi
+                    for coord in (self.ycoord, self.xcoord)
+                    if coord in self.data_bin.coords  # Missing coordinates are reported by _validate_inputs
+                }
             )
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
-- 
2.43.0


From f172b8e77c410f17fd9483defcbee21ead490fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 39/44] fix: unstructured tracking and checkpoint saves accept
 uneven time chunks

---
 marEx/track.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 8e951ef..d8af06b 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1343,6 +1343,8 @@ class tracker:
                 # The stats file is written last: remove it first, such that an interrupted save cannot be loaded
                 if os.path.exists(f"{self.scratch_dir}/marEx_checkpoint_stats.npz"):
                     os.remove(f"{self.scratch_dir}/marEx_checkpoint_stats.npz")
+                # N.B.: zarr requires uniform time chunks, but the input (or temporal gap filling) may leave uneven ones
+                data_bin_filtered = data_bin_filtered.chunk({self.timedim: self.timechunks})
                 data_bin_filtered.to_zarr(
                     f"{self.scratch_dir}/marEx_checkpoint_proc_bin.zarr", mode="w"
                 )  # N.B.: This needs to be done without .persist() due to dask to_zarr tuple bug...
@@ -1779,6 +1781,8 @@ class tracker:
         logger.debug("Refreshing Dask task graph...")
 
         data_bin.name = "temp"
+        # N.B.: zarr requires uniform time chunks, but the input (or temporal gap filling) may leave uneven ones
+        data_bin = data_bin.chunk({self.timedim: self.timechunks})
         data_bin.to_zarr(f"{self.scratch_dir}/marEx_temp_field.zarr", mode="w")
         del data_bin
         gc.collect()
-- 
2.43.0


From 72fbb6c610213f5329f9489ec2f16b6b942df719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 40/44] fix: a refused SLURM cluster start leaves Dask's
 configuration alone

---
 marEx/helper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 028bbba..cc04df0 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -558,13 +558,6 @@ def start_distributed_cluster(
         logger.error("dask_jobqueue not available - cannot create SLURM cluster")
         require_dependencies(["dask_jobqueue"], "SLURM cluster functionality")
 
-    # Configure Dask
-    temp_dir = configure_dask(scratch_dir)
-
-    # Use default account if none specified
-    if account is None:
-        account = DKRZ_ACCOUNT
-
     # Validate node_memory
     if node_memory not in MEMORY_CONFIGS:
         logger.error(f"Unsupported node_memory value: {node_memory}")
@@ -581,6 +574,13 @@ def start_distributed_cluster(
             },
         )
 
+    # Configure Dask
+    temp_dir = configure_dask(scratch_dir)
+
+    # Use default account if none specified
+    if account is None:
+        account = DKRZ_ACCOUNT
+
     config = MEMORY_CONFIGS[node_memory]
     logger.debug(f"Using memory configuration: {config}")
 
-- 
2.43.0


From a285a1a6b557d480c00dbd40a49c5daf6e116e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 41/44] fix: starting a SLURM cluster honours verbose and quiet

---
 marEx/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index cc04df0..b8209e2 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -549,6 +549,10 @@ def start_distributed_cluster(
     ...     n_workers=64, workers_per_node=16, node_memory=256
     ... )
     """
+    # Configure logging if verbose/quiet parameters are provided
+    if verbose is not None or quiet is not None:
+        configure_logging(verbose=verbose, quiet=quiet)
+
     logger.info(f"Starting distributed SLURM cluster - {n_workers} workers on {n_workers//workers_per_node} nodes")
     logger.info(f"Configuration: {workers_per_node} workers/node, {node_memory}GB memory/node, {runtime}h runtime")
 
-- 
2.43.0


From a2d1114251ab381104e8c2f833810ddeee33b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 42/44] fix: progress is logged at every multiple of the
 requested percentage

---
 marEx/logging_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/logging_config.py b/marEx/logging_config.py
index b8033b0..06ab667 100644
--- a/marEx/logging_config.py
+++ b/marEx/logging_config.py
@@ -436,7 +436,7 @@ def log_progress(
     percentage = (current / total) * 100
 
     # Log at frequency intervals
-    if percentage % frequency == 0 or current == total:
+    if (current * 100) % (total * frequency) == 0 or current == total:
         if is_verbose_mode():
             logger.debug(
                 f"{operation}: {current}/{total} ({percentage:.1f}%) - " f"Rate: {current/(time.perf_counter()):.2f} items/sec"
-- 
2.43.0


From e0e4bc1df05b682641514ea3a1fe7c879986db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 43/44] fix: outlines in animations follow the objects whatever
 the order of their dimensions

---
 marEx/plotX/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 94b98a0..7df813f 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -688,6 +688,8 @@ def make_frame(
     object_ids_data = plot_params.get("object_ids")
     if object_ids_data is not None:
         try:
+            if ydim in object_ids_data.dims:
+                object_ids_data = object_ids_data.transpose(..., ydim, xdim)
             object_ids_np = object_ids_data.values
             # Create binary mask where object IDs > 0
             object_mask = object_ids_np > 0
-- 
2.43.0


From b1d22d7d05eaf07be5583984016942d62ca17d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 44/44] fix: logging without any destination writes nothing to
 the console

---
 marEx/logging_config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/logging_config.py b/marEx/logging_config.py
index 06ab667..fc53aa1 100644
--- a/marEx/logging_config.py
+++ b/marEx/logging_config.py
@@ -167,6 +167,10 @@ def configure_logging(
         file_handler.setFormatter(formatter)
         root_logger.addHandler(file_handler)
 
+    # Without any destination, keep logging's last-resort handler from writing to the console
+    if not console_output and log_file is None:
+        root_logger.addHandler(logging.NullHandler())
+
     # Prevent propagation to avoid duplicate messages
     root_logger.propagate = False
 
-- 
2.43.0

