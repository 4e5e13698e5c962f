From a5f38e24a574c6570bf99f7317688509eda53639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 01/10] fix: cast_ray steps past the end cell when rounding
 disturbs the border order

The traversal compared accumulated border distances only, so rounding errors
could step an axis that had already reached the end cell. The ray then missed
its end cell: it ran on forever without a range limit and traced unrelated cells
with one. An axis that has reached the end cell no longer steps.
---
 src/ray_caster.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..f8860d8 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,7 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        if current_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -119,7 +119,13 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        // An axis that has reached the end cell is done. Otherwise floating point errors in t_max can
+        // step it past the end cell, in which case the ray would never terminate there.
+        if current_cell[dim] == end_cell[dim] {
+            t_max[dim] = std::f32::INFINITY;
+        } else {
+            t_max[dim] += t_delta[dim];
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From 040ced82f2681e5162272d37eb11e49289bc49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 02/10] fix: expand_bounds leaves out the cell of a max just
 below a tile edge

A max in the upper half of the last cell before a tile edge belongs to the next
cell (cells are centered on the multiples of the resolution), but room for the
next cell was only made when the max was an exact multiple. Integrating a point
cloud with such a point panicked.
---
 src/map/grid_map.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..b543ac9 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,12 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on the multiples of the resolution and the max cell is exclusive, so
+        // always expand the discretized max by one cell. Otherwise it won't be resized to include
+        // the cell that contains the max point.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        bounds.max.coords.add_scalar_mut(self.resolution);
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +256,12 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on the multiples of the resolution and the max cell is exclusive, so
+        // always expand the discretized max by one cell. Otherwise it won't be resized to include
+        // the cell that contains the max point.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        bounds.max.coords.add_scalar_mut(self.resolution);
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From c4793de31755fe9aa46ae42cbdd0f33423192ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 03/10] fix: integrate_point_cloud has no room for the cells
 around the sensor

The map was only expanded to the points of the cloud, but the free cells of every
ray start at the sensor. A sensor outside the map and the box of the points
panicked with an index out of bounds.
---
 src/map/lidar_noise_model.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..c5fb5dd 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -119,7 +119,16 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        if point_cloud.num_points() == 0 {
+            return;
+        }
+        // The rays start at the origin, which is not necessarily within the bounds of the points.
+        let mut bounds = point_cloud.bounds();
+        for i in 0..origin.len() {
+            bounds.min[i] = bounds.min[i].min(origin[i]);
+            bounds.max[i] = bounds.max[i].max(origin[i]);
+        }
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From f0d88d457e453e4b4ec6768f508309a3a8652219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 04/10] fix: PointCloud::bounds always includes the world
 origin

The box was accumulated from the empty box at the origin, so a cloud that does
not surround the origin got a box far larger than its points, and every map built
from it allocated everything between the points and the origin.
---
 src/geom/point_cloud.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geom/point_cloud.rs b/src/geom/point_cloud.rs
index 23f1966..e909c10 100644
--- a/src/geom/point_cloud.rs
+++ b/src/geom/point_cloud.rs
@@ -46,8 +46,12 @@ where
 
     /// Returns the bounds that encapsulates all the points in the point cloud.
     pub fn bounds(&self) -> Bounds<NaD> {
+        let first_bounds = match self.points_iter().next() {
+            Some(point) => Bounds::<NaD>::new(point.clone(), point),
+            None => Bounds::<NaD>::empty(),
+        };
         self.points_iter()
-            .fold(Bounds::<NaD>::empty(), |mut bounds, point| {
+            .fold(first_bounds, |mut bounds, point| {
                 for (i, point_val) in point.iter().enumerate() {
                     if *point_val < bounds.min[i] {
                         bounds.min[i] = *point_val;
-- 
2.43.0


From c602cd907a0c92aa039b095ae1a813b6bfce9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 05/10] fix: changed_cells point at other cells after the map
 grows

Growing the map below its minimum shifts the indices of all cells, but the
recorded changed cells kept their old indices.
---
 src/map/grid_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index b543ac9..78f35db 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -235,6 +235,9 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
@@ -282,6 +285,9 @@ where
             let offset = cell_bounds.min - new_cell_bounds.min;
             let cells_size = cell_bounds.max - cell_bounds.min;
             assert!(offset.x >= 0 && offset.y >= 0);
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
             let mut to_slice = to_data.slice_mut(nd::s![
                 offset.x..(cells_size.x + offset.x),
                 offset.y..(cells_size.y + offset.y),
-- 
2.43.0


From 0c0998db94b7dc3a1ac41295287153013b704fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 06/10] fix: GridMap3i and GridMap3b are 2-dimensional maps

---
 src/map/grid_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 78f35db..cca7ea4 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -15,8 +15,8 @@ pub type GridMap2b = GridMap2<bool>;
 
 pub type GridMap3<A> = GridMapN<A, na::U3, nd::Ix3>;
 pub type GridMap3f = GridMap3<f32>;
-pub type GridMap3i = GridMap2<i32>;
-pub type GridMap3b = GridMap2<bool>;
+pub type GridMap3i = GridMap3<i32>;
+pub type GridMap3b = GridMap3<bool>;
 
 pub const DEFAULT_RESOLUTION: f32 = 0.1;
 pub const DEFAULT_TILE_SIZE: usize = 100;
-- 
2.43.0


From 361d868d89ab6ecdbdfd7b922f5682f93bb1d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 07/10] fix: gps_to_meters scales longitude by the latitude
 difference

The length of a degree of longitude depends on the latitude itself. With the
cosine of the latitude difference every eastward displacement was reported as if
the vehicle drove along the equator (50 % too long at the KITTI site).
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From 361bbeae328408c0eef92671d81833e849e71474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 08/10] fix: gps_to_meters goes around the earth across the
 antimeridian

---
 src/kitti/oxt_reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..96a0582 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -31,7 +31,13 @@ fn gps_to_meters(
     gps_origin: &na::Translation3<f64>,
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
-    let dlon = gps_point.vector[1] - gps_origin.vector[1];
+    let mut dlon = gps_point.vector[1] - gps_origin.vector[1];
+    // Take the short way around if the antimeridian lies between the two points.
+    if dlon > 180.0 {
+        dlon -= 360.0;
+    } else if dlon < -180.0 {
+        dlon += 360.0;
+    }
     let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
-- 
2.43.0


From 23756821a14cdeeb5b900e28bb3012632dcce318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 09/10] fix: visualiser tracks occupied cells by coords that
 shift when the map grows

The map's changed cells and the tracked ones are indices into the map's storage, whose origin moves
when the map grows towards negative coordinates. Points tracked before such a growth were never
removed, or removed when another cell changed. Key them by the cell counted from the world origin.
---
 viz/src/bin/draw_occupancy_grid.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..7d70ba8 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -46,6 +46,8 @@ struct AppState {
     point_clouds: Vec<kuba::PointCloud3>,
     index: usize,
     grid_updater: std::sync::Arc<GridUpdater>,
+    /// Centers of the occupied cells, keyed by the cell counted from the world origin. A cell of the
+    /// map does not keep its coords when the map grows.
     tracked_cells: std::collections::HashMap<kuba::Cell3, na::Point3<f32>>,
 }
 
@@ -58,16 +60,16 @@ impl AppState {
             let mut changed_cells = self.grid_updater.changed_cells.lock().unwrap();
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
             for cell in changed_cells.iter() {
-                let occupied = grid_map.occupied(cell);
-                if occupied {
-                    if !self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells
-                            .insert(*cell, grid_map.point_from_cell(cell));
-                    }
+                let point = grid_map.point_from_cell(cell);
+                let world_cell = kuba::converter::cell_from_point(
+                    &point,
+                    &na::Point3::origin(),
+                    grid_map.resolution(),
+                );
+                if grid_map.occupied(cell) {
+                    self.tracked_cells.insert(world_cell, point);
                 } else {
-                    if self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells.remove(cell);
-                    }
+                    self.tracked_cells.remove(&world_cell);
                 }
             }
             changed_cells.clear();
-- 
2.43.0


From ed2fca789be188c35a4430556b1ba06aaa452988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 10/10] fix: reading a directory with print_status panics on a
 file name that is not UTF-8

Print such names lossily instead of unwrapping their conversion.
---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index 96a0582..87f68e1 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -103,7 +103,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0

