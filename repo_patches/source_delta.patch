From 8e5247ddbc65572e1f31dd9ac4dd9305a156e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 01/19] fix: find hits behind the ray origin in a bvh when the
 interval includes them

A fog volume asks its boundary for hits at any length. With a bvh as boundary, faces behind
the ray origin were ruled out by the bounding box test that only looks ahead, so rays starting
inside the volume were never scattered.
---
 src/hittable/bvh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..4b0396e 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,9 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        // The bounding box is only tested in front of the ray origin, so it can not be used
+        // to rule out hits behind it
+        if ray_length.min >= 0. && !self.b_box.hit(r) {
             return None;
         }
 
-- 
2.43.0


From 6f861ffa2c2b4f01c4bae914e954423e3198ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 02/19] fix: collect albedo and normal colors when a post
 processor needs them

The condition was inverted, so the denoiser got all zero albedo and normal buffers.
---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..5652233 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From ab580f7e62dbebe81bde9332eb38ab30a9bbd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/19] fix: render images that are one pixel wide or high

The view coordinates were divided by zero, so such images only showed the background.
---
 src/renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 5652233..c2cbd33 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,8 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float()) / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float()) / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From c7817071b41f9cbccc5eaff266782dc5c956b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 04/19] fix: keep material ids apart in models with more than
 127 materials

Ids were truncated to 8 bits: material 255 replaced the default material and material 256
the first one.
---
 src/loader/obj.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..2e614a6 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(i as i64, Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -112,7 +112,7 @@ impl Loader for Obj {
 
                 let material_id = match mesh.material_id {
                     None => -1,
-                    Some(id) => id as i8,
+                    Some(id) => id as i64,
                 };
                 let material = match mat_map.get(&material_id) {
                     None => default_material.to_owned(),
-- 
2.43.0


From 67a93838e40d9f660a0b5c61975824350560c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 05/19] fix: sample triangle lights on the triangle only

Half of the random directions missed the triangle, while the pdf assumed they all hit it.
---
 src/hittable/triangle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..79b338e 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -112,7 +112,14 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
+        let mut r1 = random_normal_float();
+        let mut r2 = random_normal_float();
+        // Fold points in the other half of the parallelogram back on the triangle
+        if r1 + r2 > 1. {
+            r1 = 1. - r1;
+            r2 = 1. - r2;
+        }
+        let p = self.v0 + self.v0v1 * r1 + self.v0v2 * r2;
         p - origin
     }
 
-- 
2.43.0


From 61cd6b72accd43db0d15b63e330b71812014909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 06/19] fix: do not lose small triangles

The test for rays parallel to the triangle depended on the size of the triangle, so that small
triangles were never hit. Uses the same test as for quads.
---
 src/hittable/triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 79b338e..cec62be 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -128,7 +128,7 @@ impl Hittable for Triangle {
         let det = self.v0v1.dot(p_vec);
 
         // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO {
+        if self.normal.dot(r.direction).abs() < ALMOST_ZERO {
             return None;
         }
 
-- 
2.43.0


From f018c9ac00745404bd88c0484643f3399715f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 07/19] fix: normal maps on triangles without texture
 coordinates

The tangents were not a number, and so was every mapped normal.
---
 src/hittable/triangle.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index cec62be..5e79d59 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -75,9 +75,18 @@ impl Triangle {
         let delta_pos_2 = v2 - v0;
         let delta_uv_1 = uv1 - uv0;
         let delta_uv_2 = uv2 - uv0;
-        let r = 1. / (delta_uv_1.u * delta_uv_2.v - delta_uv_1.v * delta_uv_2.u);
-        let tangent = ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit();
-        let bi_tangent = ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit();
+        let uv_det = delta_uv_1.u * delta_uv_2.v - delta_uv_1.v * delta_uv_2.u;
+        let (tangent, bi_tangent) = if uv_det == 0. {
+            // No usable texture coordinates, so any basis is as good
+            let onb = Onb::new(normal);
+            (onb.tangent, onb.bi_tangent)
+        } else {
+            let r = 1. / uv_det;
+            (
+                ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit(),
+                ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit(),
+            )
+        };
 
         Hittables::from(Triangle {
             v0,
-- 
2.43.0


From c70607cda317488d766228a7ed53fdf5fab0b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 08/19] fix: normal maps on spheres with a radius other than
 one

The length of the bi-tangent was the radius of the sphere.
---
 src/hittable/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..6f6108d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -87,7 +87,7 @@ impl Hittable for Sphere {
         let uv = calculate_sphere_uv(normal);
 
         let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From 130cac1ddaa12d6fffdeee03aaaff9a40da07934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 09/19] fix: light sampling from the inside of a sphere light

The pdf and the directions were not a number, which made everything inside the sphere black.
---
 src/hittable/sphere.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 6f6108d..f81852f 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -4,7 +4,7 @@ use crate::geo::Aabb;
 use crate::geo::Onb;
 use crate::geo::Ray;
 use crate::geo::Uv;
-use crate::geo::vec3::{UNIT_Y, Vec3};
+use crate::geo::vec3::{random_unit_vector, UNIT_Y, Vec3};
 use crate::hittable::{Hittable, Hittables};
 use crate::hittable::Hittables::SphereType;
 use crate::material::{Material, Materials, RayHit};
@@ -45,9 +45,12 @@ impl Hittable for Sphere {
         match hit {
             None => 0.,
             Some(_) => {
-                let cos_theta_max = (1.
-                    - self.radius * self.radius / (self.center - origin).length_squared())
-                .sqrt();
+                let distance_squared = (self.center - origin).length_squared();
+                if distance_squared <= self.radius * self.radius {
+                    // The sphere is seen in every direction from the inside
+                    return 1. / (4. * PI);
+                }
+                let cos_theta_max = (1. - self.radius * self.radius / distance_squared).sqrt();
                 let solid_angle = 2. * PI * (1. - cos_theta_max);
 
                 1. / solid_angle
@@ -57,6 +60,9 @@ impl Hittable for Sphere {
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
         let direction = self.center - origin;
+        if direction.length_squared() <= self.radius * self.radius {
+            return random_unit_vector();
+        }
         let uvw = Onb::new(direction);
         uvw.local(random_to_sphere(self.radius, direction.length_squared()))
     }
-- 
2.43.0


From c4448852d4f973a12a5c8ea56dec521008a7aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 10/19] fix: attenuate light by the distance travelled

Ray lengths were added up in units of the length of each ray's direction, which for instance
is the distance to the light itself for rays sampled towards a light.
---
 src/renderer/shader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index a1f3dc5..e9ba73a 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -71,7 +71,8 @@ impl Shader for PathTracingShader {
             return AttenuatedColor::default();
         }
 
-        let total_ray_length = rec.ray_length + accumulated_ray_length;
+        let total_ray_length =
+            rec.ray_length * ray.direction.length() + accumulated_ray_length;
         let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
 
         match ray_scatter {
-- 
2.43.0


From e0723909532caf69f8c4f533ce8f2ad8f5d891bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 11/19] fix: use all texels of a texture

The last column and row were never used, so that for instance a texture of two by two texels
was shown as a single color.
---
 src/material/texture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..3aca719 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -171,8 +171,8 @@ impl Texture for ImageMap {
         let u = uv.u.abs() % 1.;
         let v = 1. - uv.v.abs() % 1.;
 
-        let x = u * self.max_x;
-        let y = v * self.max_y;
+        let x = (u * (self.max_x + 1.)).min(self.max_x);
+        let y = (v * (self.max_y + 1.)).min(self.max_y);
 
         let pixel = self.image.get_pixel(x as u32, y as u32);
         rgb_to_vec3(pixel)
-- 
2.43.0


From eb457bb753536c2109e80f169bc9ba2d8fc41793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 12/19] fix: report a failing denoiser as an error

---
 src/post/oidn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..9731d38 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -38,7 +38,12 @@ impl PostProcessor for OidnPostProcessor {
             .hdr(false)
             .clean_aux(true)
             .filter(&pixel_rgb, &mut output)
-            .expect("Failed to apply Oidn post processing");
+            .map_err(|e| {
+                simple_error::SimpleError::new(format!(
+                    "Failed to apply Oidn post processing: {:?}",
+                    e
+                ))
+            })?;
 
         if let Err(e) = device.get_error() {
             return Err(Box::new(simple_error::SimpleError::new(e.1)));
-- 
2.43.0


From 52c6485f84330cbf52e268868a92c82dd040ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 13/19] fix: keep random floats below the maximum of their
 range

---
 src/random.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/random.rs b/src/random.rs
index ffd0033..f15d423 100644
--- a/src/random.rs
+++ b/src/random.rs
@@ -7,7 +7,14 @@ pub fn random_normal_float() -> f64 {
 
 /// returns a random float min to <max
 pub fn random_float(min: f64, max: f64) -> f64 {
-    fastrand::f64() * (max - min) + min
+    let r = fastrand::f64() * (max - min) + min;
+
+    // Rounding must not move the value to, or beyond, the excluded maximum
+    if r < max || max <= min {
+        r
+    } else {
+        min
+    }
 }
 
 /// returns a random uint32 0 to <max
-- 
2.43.0


From ae473b61ce7b5023b3e4a48cbc2a96287d7d78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 14/19] fix: let fog scatter rays of long direction vectors

---
 src/hittable/constant_medium.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hittable/constant_medium.rs b/src/hittable/constant_medium.rs
index b4b004c..d739e42 100644
--- a/src/hittable/constant_medium.rs
+++ b/src/hittable/constant_medium.rs
@@ -36,7 +36,8 @@ impl Hittable for ConstantMedium {
         match self.boundary.hit(r, &UNIVERSE_INTERVAL) {
             None => None,
             Some(rec1) => {
-                let interval = Interval::new(rec1.ray_length + 0.0001, f64::INFINITY);
+                let r_length = r.direction.length();
+                let interval = Interval::new(rec1.ray_length + 0.0001 / r_length, f64::INFINITY);
                 match self.boundary.hit(r, &interval) {
                     None => None,
                     Some(rec2) => {
@@ -48,7 +49,6 @@ impl Hittable for ConstantMedium {
                         }
 
                         rec1_ray_length = rec1_ray_length.max(0.);
-                        let r_length = r.direction.length();
                         let distance_inside_boundary =
                             (rec2_ray_length - rec1_ray_length) * r_length;
                         let hit_distance =
-- 
2.43.0


From fea72fc456bd77370941082b9d3e3d3afa1d5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 15/19] fix: no bias from lights in the plane of the surface
 they shine on

---
 src/hittable/quad.rs     | 5 +++++
 src/hittable/triangle.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/hittable/quad.rs b/src/hittable/quad.rs
index d9e60d1..b211cbf 100644
--- a/src/hittable/quad.rs
+++ b/src/hittable/quad.rs
@@ -130,6 +130,11 @@ impl Quad {
 
 impl Hittable for Quad {
     fn pdf_value(&self, origin: Vec3, direction: Vec3) -> f64 {
+        // Within its own plane a light has no extent, and the directions towards it infinite density
+        if (self.normal.dot(origin) - self.d).abs() < ALMOST_ZERO && self.normal.dot(direction).abs() < ALMOST_ZERO {
+            return f64::INFINITY;
+        }
+
         let ray = Ray::new(origin, direction);
 
         match self.hit(&ray, &RAY_INTERVAL) {
diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 5e79d59..61b359d 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -107,6 +107,11 @@ impl Triangle {
 
 impl Hittable for Triangle {
     fn pdf_value(&self, origin: Vec3, direction: Vec3) -> f64 {
+        // Within its own plane a light has no extent, and the directions towards it infinite density
+        if (self.normal.dot(origin - self.v0)).abs() < ALMOST_ZERO && self.normal.dot(direction).abs() < ALMOST_ZERO {
+            return f64::INFINITY;
+        }
+
         let ray = Ray::new(origin, direction);
 
         match self.hit(&ray, &RAY_INTERVAL) {
-- 
2.43.0


From 052cb3d2ae4e236d873f3a2f3b600bd8113b632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 16/19] fix: normal maps gave not-a-number normals at the poles
 of spheres

---
 src/hittable/sphere.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index f81852f..8c89f91 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -92,7 +92,13 @@ impl Hittable for Sphere {
         let mut normal = n.unit();
         let uv = calculate_sphere_uv(normal);
 
-        let tangent = UNIT_Y.cross(n).unit();
+        let mut tangent = UNIT_Y.cross(n);
+        if tangent.length() > 0. {
+            tangent = tangent.unit();
+        } else {
+            // At the poles every direction along the surface is horizontal
+            tangent = Vec3::new(1., 0., 0.);
+        }
         let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
-- 
2.43.0


From c67bf2e095e6d978d7c14f024496ee2c2652c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 17/19] fix: normal maps were classified by their raw colours
 instead of the vectors they encode

---
 src/material/texture.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 3aca719..1764b54 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -8,7 +8,7 @@ use image::RgbImage;
 use simple_error::SimpleError;
 
 use crate::geo::Uv;
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{ONE_VECTOR, Vec3};
 use crate::material::texture::BumpMap::{Height, Normal};
 use crate::material::texture::Textures::{ImageMapType, SolidColorType};
 use crate::util::height_map;
@@ -70,7 +70,9 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
 
     for pixel in image.pixels() {
         let p = rgb_to_vec3(pixel);
-        if (p.length() - 1.).abs() < 0.05 {
+        // Colors of a normal map represent components from -1 to 1
+        let n: Vec3 = p * 2. - ONE_VECTOR;
+        if (n.length() - 1.).abs() < 0.05 {
             num_normal += 1;
         }
         if (p.x - p.y).abs() < 0.05 && (p.y - p.z).abs() < 0.05 {
-- 
2.43.0


From f4d5fbc2252e385e17999ed42ca7697bc70ba7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 18/19] fix: report every material library that cannot be
 loaded

With several mtllib statements a missing or malformed library was silently ignored, and its
materials replaced by the default, if any other library had been loaded.
---
 src/loader/obj.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 2e614a6..b3a58da 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -2,8 +2,12 @@
 //! all triangles. It also read materials from the referred .mat file.
 //! Support for colored and textured lambertian materials.
 //! Applies supplied default material if none in model
+use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
+use std::fs::File;
+use std::io::BufReader;
+use std::path::Path;
 
 use simple_error::SimpleError;
 use tobj::LoadOptions;
@@ -48,11 +52,23 @@ impl Loader for Obj {
         };
 
         let filepath = format!("{}{}", self.path, self.filename);
-        let (models, materials) = tobj::load_obj(&filepath, &load_options).map_err(|_| {
-            SimpleError::new(format!("failed to load obj model from {}", &filepath))
-        })?;
-        let materials =
-            materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
+        let obj_error =
+            || SimpleError::new(format!("failed to load obj model from {}", &filepath));
+        let file = File::open(&filepath).map_err(|_| obj_error())?;
+        let parent = Path::new(&filepath).parent().unwrap_or(Path::new(""));
+        let mtl_failed = Cell::new(false);
+        let (models, materials) =
+            tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
+                let result = tobj::load_mtl(parent.join(mtl_path));
+                mtl_failed.set(mtl_failed.get() || result.is_err());
+                result
+            })
+            .map_err(|_| obj_error())?;
+        // The parser only reports a failed MTL file if no other one was loaded
+        let materials = materials
+            .ok()
+            .filter(|_| !mtl_failed.get())
+            .ok_or_else(|| format!("failed to load MTL file for {}", &filepath))?;
 
         let mut mat_map = HashMap::from([(-1, default_material.clone())]);
         for (i, m) in materials.iter().enumerate() {
-- 
2.43.0


From 378296b3e17d72286f00248c29ff62109a7cb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 19/19] fix: reject materials whose colors lack components
 instead of panicking

The parser unwraps the three components of a color: 'Kd 0.5' in a material library panicked.
---
 src/loader/obj.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index b3a58da..b26f3d7 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -5,12 +5,13 @@
 use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
+use std::fs;
 use std::fs::File;
 use std::io::BufReader;
 use std::path::Path;
 
 use simple_error::SimpleError;
-use tobj::LoadOptions;
+use tobj::{LoadError, LoadOptions, MTLLoadResult};
 
 use crate::geo::transformation::Transformer;
 use crate::geo::Uv;
@@ -59,7 +60,7 @@ impl Loader for Obj {
         let mtl_failed = Cell::new(false);
         let (models, materials) =
             tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
-                let result = tobj::load_mtl(parent.join(mtl_path));
+                let result = load_mtl(&parent.join(mtl_path));
                 mtl_failed.set(mtl_failed.get() || result.is_err());
                 result
             })
@@ -152,6 +153,19 @@ impl Loader for Obj {
     }
 }
 
+/// Loads a material file. Colors with less than three components are
+/// rejected here, as the parser panics on them
+fn load_mtl(path: &Path) -> MTLLoadResult {
+    let content = fs::read_to_string(path).map_err(|_| LoadError::ReadError)?;
+    for line in content.lines() {
+        let mut words = line.split_whitespace();
+        if matches!(words.next(), Some("Ka" | "Kd" | "Ks" | "Ke")) && words.count() < 3 {
+            return Err(LoadError::MaterialParseError);
+        }
+    }
+    tobj::load_mtl_buf(&mut content.as_bytes())
+}
+
 fn vec3_from_mesh_vec(positions: &[f32], offset: usize) -> Vec3 {
     Vec3::new(
         positions[offset] as f64,
-- 
2.43.0

