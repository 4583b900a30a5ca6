From 1a3a44ac43d4dd9a539192af1072f46f9d326b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 1/4] fix: solve the ray intersection normal equations in f64

With f32 rays that are parallel (such as those of an orthographic camera), the
pseudo-inverse has entries of up to 1e7 and multiplying it in f32 returned a
point as far from every ray as the rays are from the coordinate origin.
---
 src/ray_intersection.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 327a774..84644f7 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -26,15 +26,6 @@ macro_rules! refsum_as_f64 {
     }};
 }
 
-/// convert from specialized type (e.g. f64) into generic type $R
-macro_rules! despecialize {
-    ($a:expr, $R:ty, $rows:expr, $cols:expr) => {{
-        SMatrix::<$R, $rows, $cols>::from_iterator(
-            $a.as_slice().into_iter().map(|x| na::convert(*x)),
-        )
-    }};
-}
-
 /// A single point. (This is a `Points` instance defined to have only one point).
 pub type SinglePoint<Coords, R> = Points<Coords, R, U1, Owned<R, U1, U3>>;
 
@@ -140,7 +131,6 @@ where
     let xt2 = py.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let xt3 = pz.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CX: f64 = refsum_as_f64!(izip!(xt1, xt2, xt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CX: R = na::convert(CX);
 
     let yt1 = px.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let yt2 = py
@@ -149,7 +139,6 @@ where
         .map(|(a, b)| a.clone() * b.clone());
     let yt3 = pz.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CY: f64 = refsum_as_f64!(izip!(yt1, yt2, yt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CY: R = na::convert(CY);
 
     let zt1 = px.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let zt2 = py.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
@@ -158,17 +147,17 @@ where
         .zip(zzm1.iter())
         .map(|(a, b)| a.clone() * b.clone());
     let CZ: f64 = refsum_as_f64!(izip!(zt1, zt2, zt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CZ: R = na::convert(CZ);
 
     let C = Vector3::new(CX, CY, CZ);
 
-    let s_f64_pinv = my_pinv(&S)?;
-    let s_pinv = despecialize!(s_f64_pinv, R, 3, 3);
-    let r: Vector3<R> = s_pinv * C;
+    // Solve in f64 and convert only the result to R. When the rays are (nearly)
+    // parallel, the pseudo-inverse may have very large entries and evaluating
+    // this product with the precision of f32 would lose all significant digits.
+    let r: Vector3<f64> = my_pinv(&S)? * C;
 
     let mut result = crate::Points::new(nalgebra::OMatrix::<R, U1, U3>::zeros_generic(u1, u3));
     for j in 0..3 {
-        result.data[(0, j)] = r[j].clone();
+        result.data[(0, j)] = na::convert(r[j]);
     }
     Ok(result)
 }
-- 
2.43.0


From 14fc5029613214c8110f887e1c0fd99125f105ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 2/4] fix: Jacobian of a camera whose principal plane contains
 the world origin

Normalizing by element (2,3), which is zero for such a camera (for example any
camera located at the world origin), made every element NaN.
---
 src/linearize.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..b769bc1 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -18,11 +18,8 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
             p33 * cam.extrinsics().matrix()
         };
 
-        // flip sign if focal length < 0
-        let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
-
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // The projection, and thus its Jacobian, does not depend on the scale
+        // of `m`, so there is no need to normalize it.
         Self { m }
     }
 
-- 
2.43.0


From e9ee11e6b46ea09b8dfd46ec1105d45e4c3f21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 3/4] fix: camera matrix when the world origin is in the
 principal plane

Dividing by element (2,3), which is then zero (for example for any camera
located at the world origin), made every element NaN or infinite.
---
 src/camera.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..85b9392 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,14 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        // Normalize such that element (2,3) is one. This is not possible when
+        // the world origin lies in the principal plane of the camera.
+        let scale = m[(2, 3)].clone();
+        if scale.is_zero() {
+            m
+        } else {
+            m / scale
+        }
     }
 }
 
-- 
2.43.0


From 047b9189bef7145458dce0e4a3868bbe5a6ebf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 4/4] fix: forward(), up() and right() of cameras far from the
 world origin

Adding and then subtracting the camera center cancels, which left f32
directions with large errors (or NaN) once the camera was far away.
---
 src/extrinsics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..e2b61cf 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,10 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        // Only rotate. Translating by the camera center and back would lose
+        // precision when the camera is far from the world origin.
+        let dir = self.cache.pose_inv.transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0

