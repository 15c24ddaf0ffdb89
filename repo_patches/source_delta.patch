From 1156605997e11e7475b0a71e92aedd9dd9c083a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:07 +0000
Subject: [PATCH 01/10] fix: KDTree insertion of a point already stored in an
 inner node no longer duplicates it

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..7e0019e 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -53,20 +53,22 @@ where
         tracing::instrument("Insert New Point", skip_all, level = "trace")
     )]
     fn insert(&mut self, data: Point<T, N>, depth: usize) -> bool {
+        if self.internal_data == data {
+            return false;
+        }
+
         let dimension_to_check = depth % N;
 
-        let (branch_to_use, verify_equals) =
+        let branch_to_use =
             // Note that this is a &mut Option, not an Option<&mut>!
             match data.coords[dimension_to_check].partial_cmp(&self.internal_data.coords[dimension_to_check]).unwrap() {
-                Ordering::Less => (&mut self.left, false),
-                Ordering::Equal => (&mut self.right, true),
-                Ordering::Greater => (&mut self.right, false)
+                Ordering::Less => &mut self.left,
+                Ordering::Equal => &mut self.right,
+                Ordering::Greater => &mut self.right
             };
 
         if let Some(branch_exists) = branch_to_use.as_mut() {
             return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
-            return false;
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From 6fc4939a477b62bf2afbe7fbf9ddf00baeae9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 02/10] fix: Graham scan sorts the down-sampled points even
 when the input was already sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..518b2bf 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        (_, Some(voxel_size)) => {
+            // Downsampling never guarantees order, even if the input was sorted
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 7c22dade04ef48c7483365ce9340ae5a0e013956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 03/10] fix: compute hull turn determinants in the calculation
 type, integer point types overflowed

---
 crates/mapping-algorithms/src/polygons/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..fb86381 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -26,7 +26,7 @@ pub use jarvis_march::jarvis_march;
 pub use point_in_polygon::{are_multiple_points_in_polygon, is_single_point_in_polygon};
 
 use nalgebra::{ComplexField, Point, Point2, RealField, Scalar};
-use num_traits::{AsPrimitive, Bounded, NumOps};
+use num_traits::{AsPrimitive, Bounded};
 
 use crate::{array, ops::RangeInclusive, types::PolygonExtents};
 
@@ -90,15 +90,15 @@ where
     Some(extents_accumulator)
 }
 
-fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitive<O>>(
+fn calculate_determinant<O: ComplexField + Copy, T: Scalar + AsPrimitive<O>>(
     point_a: &Point2<T>,
     point_b: &Point2<T>,
     point_c: &Point2<T>,
 ) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+    // Convert before any arithmetic, as the point type may be too small (or unsigned) to hold the intermediate results
+    let [point_a, point_b, point_c] = [point_a, point_b, point_c].map(|point| point.map(T::as_));
+    ((point_b.y - point_a.y) * (point_c.x - point_b.x))
+        - ((point_b.x - point_a.x) * (point_c.y - point_b.y))
 }
 
 #[cfg(test)]
-- 
2.43.0


From baa947b6bba7832d5c332ad04b4bd3a71d1bb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 04/10] fix: haversine distance of (nearly) antipodal points is
 no longer NaN

---
 crates/mapping-algorithms/src/geo/haversine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..e642e1f 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{Point2, RealField, Scalar};
-use num_traits::Float;
+use num_traits::{clamp, Float};
 
 #[inline]
 fn half_angle_sine_squared<T>(input: T) -> T
@@ -64,6 +64,8 @@ where
 
     let basic_haversine = half_angle_sine_squared(delta_lat)
         + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos();
+    // Rounding may push this slightly outside of [0, 1], which would make the square roots NaN
+    let basic_haversine = clamp(basic_haversine, T::zero(), T::one());
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From ac6ec647b0d903b3b63eaa24e6fabf7a75595811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 05/10] fix: ICP rejects a NaN interval threshold

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..c7a6f11 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From 2dfdb98a584a8f025d7bf5881fbd3f529008ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 06/10] fix: convex hull algorithms build without the
 pregenerated feature

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 518b2bf..5c0cc97 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -169,7 +169,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..37ddc2f 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -136,7 +136,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


From 2a959d298359ba1001e9892f0e5d01a622306df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 07/10] fix: ICPError implements Display, and thereby Error,
 with the std feature

---
 crates/mapping-algorithms/src/point_clouds/icp/types.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/types.rs b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
index f126994..3347bab 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/types.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
@@ -44,20 +44,28 @@ pub struct ICPSuccess<T: Scalar, R: AbstractRotation<T, N>, const N: usize> {
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ICPError<T: Scalar, const N: usize> {
     /// The source point cloud is empty.
+    #[cfg_attr(feature = "std", error("Source point cloud is empty"))]
     SourcePointCloudEmpty,
     /// The target point cloud is empty.
+    #[cfg_attr(feature = "std", error("Target point cloud is empty"))]
     TargetPointCloudEmpty,
     /// A source point had no nearest neighbour in the target point cloud.
+    #[cfg_attr(feature = "std", error("A source point had no nearest neighbour in the target point cloud"))]
     NoNearestNeighbour,
     /// The amount of iterations was set to zero.
+    #[cfg_attr(feature = "std", error("The number of iterations was set to zero"))]
     IterationNumIsZero,
     /// The Mean Squared Error interval threshold was set to zero.
+    #[cfg_attr(feature = "std", error("The Mean Squared Error interval threshold must be larger than the machine epsilon"))]
     MSEIntervalThreshold,
     /// The Mean Squared Error absolute threshold was set to zero.
+    #[cfg_attr(feature = "std", error("The Mean Squared Error absolute threshold must be larger than the machine epsilon"))]
     MSEAbsoluteThreshold,
     /// The Current iteration did not converge, returns the current mean points.
+    #[cfg_attr(feature = "std", error("The current iteration did not converge"))]
     IterationDidNotConverge((Point<T, N>, Point<T, N>)),
     /// The algorithm did not converge after the maximum amount of iterations.
+    #[cfg_attr(feature = "std", error("The algorithm did not converge after the maximum number of iterations"))]
     AlrogithmDidNotConverge,
 }
 
-- 
2.43.0


From 6d2d91c3f09454cd08d64bce6664aa02ee69e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 08/10] fix: plotting a line between large coordinates always
 ends

---
 crates/mapping-algorithms/src/lines/bresenham.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index e8b737b..83d23f7 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -75,9 +75,9 @@ where
     let mut points = Vec::with_capacity(<F as AsPrimitive<usize>>::as_(
         deltas[primary_axis] + F::one(),
     ));
-    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
-        >= F::one()
-    {
+    // The number of steps is fixed here, as large coordinates might not change at all by adding a step to them
+    let num_steps: usize = deltas[primary_axis].as_();
+    for _ in 0..num_steps {
         points.push(current_point.map(|element| element.as_()));
 
         for axis in 0..N {
-- 
2.43.0


From 14211d5943fb7d9149159a9d23ad4dd923f1b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 09/10] fix: Jarvis march ends and keeps all vertices for any
 order of collinear points

---
 .../src/polygons/jarvis_march.rs              | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 37ddc2f..ba68acb 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -28,6 +28,17 @@ use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
 use super::calculate_determinant;
 
+// Whether a point lies exactly backwards along the edge leading from `previous` to `current`.
+fn is_behind<O, T>(previous: &Point2<T>, current: &Point2<T>, point: &Point2<T>) -> bool
+where
+    O: ComplexField + Copy + PartialOrd,
+    T: AsPrimitive<O> + Scalar,
+{
+    let [a, b, c] = [previous, current, point].map(|point| point.map(T::as_));
+    calculate_determinant::<O, T>(previous, current, point) == O::zero()
+        && (b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y) < O::zero()
+}
+
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
 ///
@@ -74,11 +85,24 @@ where
             })
     })?;
 
-    let mut hull = Vec::with_capacity(points_downsampled_slice.len());
+    let mut hull: Vec<Point2<T>> = Vec::with_capacity(points_downsampled_slice.len());
     loop {
+        // A hull never has more vertices than there are points
+        if hull.len() == points_downsampled_slice.len() {
+            return None;
+        }
+
+        let previous_vertex = hull.last().copied();
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+        let mut endpoint = current_vertex;
         for point in points_downsampled_slice {
+            // Turning back is never a part of the hull, and cannot be told apart from going straight by the determinant
+            if previous_vertex
+                .is_some_and(|previous| is_behind::<O, T>(&previous, current_vertex, point))
+            {
+                continue;
+            }
+
             if endpoint == current_vertex
                 || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
             {
@@ -86,6 +110,11 @@ where
             }
         }
 
+        // All points are collinear
+        if endpoint == current_vertex {
+            return None;
+        }
+
         current_vertex = endpoint;
 
         if current_vertex == &hull[0] {
-- 
2.43.0


From cd9999509174d8af4bd1c241e434d06a7eba3d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 10/10] fix: ICP's rotation is converted directly, not by an
 iteration that may never end

---
 .../mapping-algorithms/src/types/isometry.rs  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..437803d 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,8 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation2, Rotation3, SMatrix, UnitComplex,
+    UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +71,13 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The factors of the SVD are orthogonal, so this is a rotation matrix already. Approximating
+        // it using `from_matrix` has no bound on its iterations, which may never converge.
+        let rotation = Rotation2::from_matrix_unchecked(rotation);
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&rotation),
+        ) * old_transform
     }
 }
 
@@ -95,7 +101,12 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The factors of the SVD are orthogonal, so this is a rotation matrix already. Approximating
+        // it using `from_matrix` has no bound on its iterations, which may never converge.
+        let rotation = Rotation3::from_matrix_unchecked(rotation);
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&rotation),
+        ) * old_transform
     }
 }
-- 
2.43.0

