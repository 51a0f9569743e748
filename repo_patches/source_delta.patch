From a97a71421fee5d9afd6bc6f02b6cfe4deb8edd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 1/7] fix: KDTree::insert no longer stores a point again when
 its node already has a right branch

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..bc07a93 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,10 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
-        if let Some(branch_exists) = branch_to_use.as_mut() {
-            return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
+        if verify_equals && self.internal_data == data {
             return false;
+        } else if let Some(branch_exists) = branch_to_use.as_mut() {
+            return branch_exists.insert(data, depth + 1);
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From 91d85d2b0c5b1641fa9c843da1b5632bd4e942dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 2/7] fix: ICP takes the rotation from the SVD as it is, so
 half turns are not lost and degenerate 3D steps return

UnitComplex::from_matrix starts from the identity and stays there for a half
turn, while the translation was computed for the half turn;
UnitQuaternion::from_matrix can iterate forever.
---
 crates/mapping-algorithms/src/types/isometry.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..6938d68 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +70,11 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is already a rotation, and the iterative `from_matrix` can miss half turns or never return
+        let rotation =
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
 
@@ -95,7 +98,10 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The matrix is already a rotation, and the iterative `from_matrix` can miss half turns or never return
+        let rotation =
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation));
+
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
-- 
2.43.0


From b10ccaca504d5cd215497bef692ba7fbcdc3c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 3/7] fix: KDTree::insert skips points with NaN coordinates
 instead of panicking or storing them

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index bc07a93..eb8acde 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -159,6 +159,7 @@ where
     T: Copy + Default + NumOps + PartialOrd + Scalar + Zero,
 {
     /// Inserts a new data points into the tree, taking into consideration it's position.
+    /// Points with a NaN coordinate have no position, and are not inserted.
     ///
     /// # Arguments
     /// * `data`: a [`Point`], to be inserted into the tree.
@@ -167,6 +168,10 @@ where
         tracing::instrument("Insert To Tree", skip_all, level = "debug")
     )]
     pub fn insert(&mut self, data: Point<T, N>) {
+        if data.iter().any(|coord| coord.partial_cmp(coord).is_none()) {
+            return;
+        }
+
         if let Some(root) = self.root.as_mut() {
             if root.insert(data, 0) {
                 self.element_count += 1;
-- 
2.43.0


From 0be6c54f84bd89a3b4943c38d06077ae96c6baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 4/7] fix: jarvis_march always terminates and handles collinear
 points in any order

---
 .../src/polygons/jarvis_march.rs              | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..afec441 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -28,6 +28,21 @@ use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
 use super::calculate_determinant;
 
+/// Whether `point`, already known to be collinear with `start` and `end`, lies on the segment between them.
+fn is_between<T: PartialOrd + Scalar>(
+    start: &Point2<T>,
+    end: &Point2<T>,
+    point: &Point2<T>,
+) -> bool {
+    start
+        .iter()
+        .zip(end.iter())
+        .zip(point.iter())
+        .all(|((start, end), coord)| {
+            (start <= coord && coord <= end) || (end <= coord && coord <= start)
+        })
+}
+
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
 ///
@@ -65,7 +80,7 @@ where
     }
 
     // Get leftest, lowest point as a starting point
-    let mut current_vertex = points_downsampled_slice.iter().min_by(|a, b| {
+    let first_vertex = points_downsampled_slice.iter().min_by(|a, b| {
         a.coords
             .iter()
             .zip(b.coords.iter())
@@ -73,14 +88,20 @@ where
                 ord.then_with(|| a.partial_cmp(b).unwrap())
             })
     })?;
+    let mut current_vertex = first_vertex;
 
     let mut hull = Vec::with_capacity(points_downsampled_slice.len());
     loop {
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+        let mut endpoint = first_vertex;
         for point in points_downsampled_slice {
-            if endpoint == current_vertex
-                || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
+            let determinant: O = calculate_determinant(current_vertex, endpoint, point);
+            // Among collinear points the closest one ahead comes first, and no vertex is visited twice
+            if (determinant < O::zero()
+                || (determinant == O::zero()
+                    && (core::ptr::eq(endpoint, first_vertex)
+                        || is_between(current_vertex, endpoint, point))))
+                && !hull.contains(point)
             {
                 endpoint = point;
             }
@@ -88,12 +109,16 @@ where
 
         current_vertex = endpoint;
 
-        if current_vertex == &hull[0] {
+        if core::ptr::eq(current_vertex, first_vertex) {
             break;
         }
     }
 
-    if hull.len() < 3 {
+    // Without a turn there is no area, only a point or a line
+    if hull
+        .windows(3)
+        .all(|w| calculate_determinant::<O, T>(&w[0], &w[1], &w[2]) == O::zero())
+    {
         return None;
     }
 
-- 
2.43.0


From 6a8b426c8755a62695532aad226fb0fa4535ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 5/7] fix: graham_scan sorts the points after downsampling,
 even when the input was sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..d3a72b9 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling does not keep any order, so the result is sorted even if the input was
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 7b15bdc6c9a33013601b7d7894528a635c36a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 6/7] fix: icp() refuses a NaN MSE interval threshold, as it
 does a NaN absolute threshold

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..c7a6f11 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From 01443640c751349e85aedf3d29aa4bc9fae0fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 7/7] fix: convex hulls work for unsigned coordinates, whose
 differences underflowed

---
 crates/mapping-algorithms/src/polygons/mod.rs | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..ea85814 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -90,15 +90,43 @@ where
     Some(extents_accumulator)
 }
 
-fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitive<O>>(
+/// The step from one coordinate to another, as whether it is backwards and its length, which exist for unsigned types too.
+fn directed_step<T: Copy + NumOps + PartialOrd>(from: T, to: T) -> (bool, T) {
+    if to < from {
+        (true, from - to)
+    } else {
+        (false, to - from)
+    }
+}
+
+fn calculate_determinant<
+    O: ComplexField + Copy,
+    T: Scalar + NumOps + PartialOrd + AsPrimitive<O>,
+>(
     point_a: &Point2<T>,
     point_b: &Point2<T>,
     point_c: &Point2<T>,
 ) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+    let (y_ab_backwards, y_ab) = directed_step(point_a.y, point_b.y);
+    let (x_bc_backwards, x_bc) = directed_step(point_b.x, point_c.x);
+    let (x_ab_backwards, x_ab) = directed_step(point_a.x, point_b.x);
+    let (y_bc_backwards, y_bc) = directed_step(point_b.y, point_c.y);
+
+    let (left_negative, left) = (y_ab_backwards != x_bc_backwards, y_ab * x_bc);
+    let (right_negative, right) = (x_ab_backwards != y_bc_backwards, x_ab * y_bc);
+
+    let (difference_negative, difference) = if left_negative == right_negative {
+        let (backwards, difference) = directed_step(right, left);
+        (left_negative != backwards, difference.as_())
+    } else {
+        (left_negative, left.as_() + right.as_())
+    };
+
+    if difference_negative {
+        -difference
+    } else {
+        difference
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

