From 2be2e4846c0e95013892722e6fb34ba41cb052d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 01/25] fix: glm_quat_slerp: take the short arc in the
 near-antipodal fallback

cosTheta < 0 negates q1, but the linear fallback used for nearly equal
rotations interpolated from the un-negated quaternion and so passed through
zero (slerp(q, -q', 0.5) ~ 0 for q' close to q).
---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..fccce5b 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From ad4cee24725b4c0ee0b49dedc69a5b6f67ffd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 02/25] fix: glm_rotated, glm_rotated_x/y/z: rotate the
 translation as well

The post (left-multiplied) rotations used glm_mul_rot(rot, m), which takes the
translation column from its first operand and so dropped m's translation.
---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From 73bd03a9f0c709948b83f0b7ec4b0f1be7549555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 03/25] fix: glm_rotated_at: move the pivot to the origin
 before rotating

As a post transform the steps are applied in call order, so the pivot has to be
subtracted first and added back last.
---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From 350c9cfa2fb4d51cfabaefe13fa04af0f30a91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 04/25] fix: glm_spin: rotate around the object itself

A pre (right-multiplied) rotation already happens in the object's own frame;
using the world position m[3] as pivot there moved the object.
---
 include/cglm/affine-pre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..232fa45 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,7 +297,7 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
+  glm_rotate_make(rot, angle, axis);
   glm_mat4_mul(m, rot, m);
 }
 
-- 
2.43.0


From 79d8b7fb448f559f9bdd708fd7458b1eb48016e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 05/25] fix: left-handed frustum maps off-centre volumes onto
 the clip cube (negate the offset column, and read it back negated in the
 decompositions)

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..488becf 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / (proj[3][3]);
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / (proj[3][3]);
-- 
2.43.0


From cb055aab1a08e5bcae56b62b331822a9053cbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 06/25] fix: left-handed glm_ortho_aabb* enclose the box (view
 space looks down +Z)

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From 340695569a709673f5e350e6e797124264c37be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 07/25] fix: glm_persp_decomp_x/y_lh_zo recover the near plane
 (divided by proj[3][3], which is zero)

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 488becf..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 =-proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 =-proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From 4b576284c8292dd16902a32a609bcad65567e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 08/25] fix: glm_vec3_ortho never returns a zero vector for a
 non-zero one (it did for e.g. (1,0,2), breaking glm_look_anyup)

---
 include/cglm/vec3.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..0c31e31 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -922,9 +922,14 @@ glm_vec3_minv(vec3 a, vec3 b, vec3 dest) {
 CGLM_INLINE
 void
 glm_vec3_ortho(vec3 v, vec3 dest) {
-  float ignore;
-  float f      = modff(fabsf(v[0]) + 0.5f, &ignore);
-  vec3  result = {-v[1], v[0] - f * v[2], f * v[1]};
+  vec3 result = {0.0f, -v[2], v[1]};
+
+  if (fabsf(v[0]) > fabsf(v[2])) {
+    result[0] = -v[1];
+    result[1] =  v[0];
+    result[2] =  0.0f;
+  }
+
   glm_vec3_copy(result, dest);
 }
 
-- 
2.43.0


From 3c539f31c1884ddc131e748f1ca428da380f5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 09/25] fix: glm_aabb_sphere/glm_aabb2d_circle measure the
 distance to the near side of the box (spheres touching the lower faces were
 missed)

---
 include/cglm/aabb2d.h |  8 ++++----
 include/cglm/box.h    | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..a153a83 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -232,11 +232,11 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   float dmin;
   int   a, b;
 
-  a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
-  b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
+  a = (c[0] < aabb[0][0]) + 2 * (c[0] > aabb[1][0]);
+  b = (c[1] < aabb[0][1]) + 2 * (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[a > 1][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[b > 1][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..00fdae4 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -239,13 +239,13 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   float dmin;
   int   a, b, c;
 
-  a = (s[0] < box[0][0]) + (s[0] > box[1][0]);
-  b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
-  c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
+  a = (s[0] < box[0][0]) + 2 * (s[0] > box[1][0]);
+  b = (s[1] < box[0][1]) + 2 * (s[1] > box[1][1]);
+  c = (s[2] < box[0][2]) + 2 * (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[a > 1][0]) * (a != 0))
+        + glm_pow2((s[1] - box[b > 1][1]) * (b != 0))
+        + glm_pow2((s[2] - box[c > 1][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From e28f6231d575c255fbaef921fd3654f1e3b161b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 10/25] fix: glm_ray_sphere returns t2 = 0, not NaN, for a ray
 starting at its tangent point

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..f1354f5 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = (q != 0.0f) ? (dpp - r2) / q : 0.0f;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From c0962b8aaaaadb3759e809427f22a2ade42c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 11/25] fix: first half of the bounce in-out easing mirrors the
 bounce (0 at 0, continuous at 1/2)

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..a833341 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * (1.0f - glm_ease_bounce_out(1.0f - t * 2.0f));
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From 91e53035910d67712b921ab6bb2992f193603d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 12/25] fix: vec4 normalize with SIMD compares the norm, not
 its square, with epsilon

---
 include/cglm/vec4.h | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..56bef19 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -909,34 +909,33 @@ CGLM_INLINE
 void
 glm_vec4_normalize_to(vec4 v, vec4 dest) {
 #if defined(__wasm__) && defined(__wasm_simd128__)
-  glmm_128 xdot, x0;
-  float  dot;
+  glmm_128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  /* dot  = _mm_cvtss_f32(xdot); */
-  dot  = wasm_f32x4_extract_lane(xdot, 0);
+  x0    = glmm_load(v);
+  xnorm = wasm_f32x4_sqrt(glmm_vdot(x0, x0));
+  norm  = wasm_f32x4_extract_lane(xnorm, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, wasm_f32x4_sqrt(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #elif defined( __SSE__ ) || defined( __SSE2__ )
-  __m128 xdot, x0;
-  float  dot;
+  __m128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  dot  = _mm_cvtss_f32(xdot);
+  x0    = glmm_load(v);
+  xnorm = _mm_sqrt_ps(glmm_vdot(x0, x0));
+  norm  = _mm_cvtss_f32(xnorm);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, _mm_sqrt_ps(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #else
   float norm;
 
-- 
2.43.0


From 77ad0917f3eab0f77057455c80b8cfdf9717880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 13/25] fix: glm_sign returned 0 for INT_MIN (negation
 overflow)

---
 include/cglm/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/util.h b/include/cglm/util.h
index 8c5f2cb..96a1988 100644
--- a/include/cglm/util.h
+++ b/include/cglm/util.h
@@ -48,7 +48,7 @@
 CGLM_INLINE
 int
 glm_sign(int val) {
-  return ((val >> 31) - (-val >> 31));
+  return (val > 0) - (val < 0);
 }
 
 /*!
-- 
2.43.0


From b35de2233cf0b13a3ad1c02fee48001536990dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 14/25] fix: glms_pickmatrix returned an uninitialised matrix
 for an empty picking region

---
 include/cglm/struct/project.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/project.h b/include/cglm/struct/project.h
index 8383c77..2e423a9 100644
--- a/include/cglm/struct/project.h
+++ b/include/cglm/struct/project.h
@@ -154,7 +154,7 @@ glms_project_z(vec3s v, mat4s m) {
 CGLM_INLINE
 mat4s
 glms_pickmatrix(vec2s center, vec2s size, vec4s vp) {
-  mat4s res;
+  mat4s res = GLMS_MAT4_IDENTITY_INIT;
   glm_pickmatrix(center.raw, size.raw, vp.raw, res.raw);
   return res;
 }
-- 
2.43.0


From ab9d1039d154c51aae9b64651424e984acff4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 15/25] fix: glms_frustum_corners_at wrote 8 corners into the
 caller's 4-element array

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0


From bee344a92545b8726cf3314eb6134e7aaca25092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 16/25] fix: glm_mat{2,3,4}_transpose_to gave a wrong matrix
 when dest is the source

---
 include/cglm/mat2.h |  6 +++++-
 include/cglm/mat3.h | 13 ++++++++++---
 include/cglm/mat4.h | 22 ++++++++++++++--------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..6eda1a7 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -199,9 +199,13 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float t01;
+
+  /* dest can be mat */
+  t01        = mat[0][1];
   dest[0][0] = mat[0][0];
   dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
+  dest[1][0] = t01;
   dest[1][1] = mat[1][1];
 #endif
 }
diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..b7f41a2 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,14 +190,21 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
+  float t01, t02, t12;
+
+  /* dest can be m */
+  t01 = m[0][1];
+  t02 = m[0][2];
+  t12 = m[1][2];
+
   dest[0][0] = m[0][0];
   dest[0][1] = m[1][0];
   dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
+  dest[1][0] = t01;
   dest[1][1] = m[1][1];
   dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
+  dest[2][0] = t02;
+  dest[2][1] = t12;
   dest[2][2] = m[2][2];
 }
 
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..a26de15 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,20 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  float t01, t02, t03, t12, t13, t23;
+
+  /* dest can be m */
+  t01 = m[0][1]; t02 = m[0][2]; t03 = m[0][3];
+  t12 = m[1][2]; t13 = m[1][3]; t23 = m[2][3];
+
+  dest[0][0] = m[0][0]; dest[0][1] = m[1][0];
+  dest[0][2] = m[2][0]; dest[0][3] = m[3][0];
+  dest[1][0] = t01;     dest[1][1] = m[1][1];
+  dest[1][2] = m[2][1]; dest[1][3] = m[3][1];
+  dest[2][0] = t02;     dest[2][1] = t12;
+  dest[2][2] = m[2][2]; dest[2][3] = m[3][2];
+  dest[3][0] = t03;     dest[3][1] = t13;
+  dest[3][2] = t23;     dest[3][3] = m[3][3];
 #endif
 }
 
-- 
2.43.0


From 3d73aa71b90479945f8b52fbd2dda55809d6cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 17/25] fix: glm_quat_mul without SIMD gave a wrong product
 when dest is an operand

---
 include/cglm/quat.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index fccce5b..cdd4c54 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,18 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  float x, y, z, w;
+
+  /* dest can be p or q, as in the SIMD versions */
+  x = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  y = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  z = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  w = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+
+  dest[0] = x;
+  dest[1] = y;
+  dest[2] = z;
+  dest[3] = w;
 #endif
 }
 
-- 
2.43.0


From 66f050be1786e85043881993e4964db5a0467f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 18/25] fix: glm_mat2_mulv gave a wrong result when dest is v

---
 include/cglm/mat2.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 6eda1a7..683dfbf 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,14 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  float x, y;
+
+  /* dest can be v */
+  x = m[0][0] * v[0] + m[1][0] * v[1];
+  y = m[0][1] * v[0] + m[1][1] * v[1];
+
+  dest[0] = x;
+  dest[1] = y;
 }
 
 /*!
-- 
2.43.0


From eb3479fc650ebd605fb8134d30c5235649aced13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 19/25] fix: glm_vec4_reflect and glm_vec{2,3,4}_refract gave
 wrong results when dest is v or n

---
 include/cglm/vec2.h |  7 +++++--
 include/cglm/vec3.h |  7 +++++--
 include/cglm/vec4.h | 10 ++++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/cglm/vec2.h b/include/cglm/vec2.h
index 655fb4b..c5113ad 100644
--- a/include/cglm/vec2.h
+++ b/include/cglm/vec2.h
@@ -779,6 +779,7 @@ glm_vec2_reflect(vec2 v, vec2 n, vec2 dest) {
 CGLM_INLINE
 bool
 glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
+  vec2  temp;
   float ndi, eni, k;
 
   ndi = glm_vec2_dot(n, v);
@@ -790,8 +791,10 @@ glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
     return false;
   }
 
-  glm_vec2_scale(v, eta, dest);
-  glm_vec2_mulsubs(n, eni + sqrtf(k), dest);
+  /* dest can be v or n */
+  glm_vec2_scale(v, eta, temp);
+  glm_vec2_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec2_copy(temp, dest);
   return true;
 }
 
diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 0c31e31..ccd1817 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -1250,6 +1250,7 @@ glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
 CGLM_INLINE
 bool
 glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
+  vec3  temp;
   float ndi, eni, k;
 
   ndi = glm_vec3_dot(n, v);
@@ -1261,8 +1262,10 @@ glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
     return false;
   }
 
-  glm_vec3_scale(v, eta, dest);
-  glm_vec3_mulsubs(n, eni + sqrtf(k), dest);
+  /* dest can be v or n */
+  glm_vec3_scale(v, eta, temp);
+  glm_vec3_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec3_copy(temp, dest);
   return true;
 }
 
diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index 56bef19..7ff8688 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1302,9 +1302,8 @@ glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
+  temp[3] = 0.0f; /* keep w, v can be dest */
   glm_vec4_sub(v, temp, dest);
-
-  dest[3] = v[3];
 }
 
 /*!
@@ -1328,6 +1327,7 @@ glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
 CGLM_INLINE
 bool
 glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
+  vec4  temp;
   float ndi, eni, k;
 
   ndi = glm_vec4_dot(n, v);
@@ -1339,8 +1339,10 @@ glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
     return false;
   }
 
-  glm_vec4_scale(v, eta, dest);
-  glm_vec4_mulsubs(n, eni + sqrtf(k), dest);
+  /* dest can be v or n */
+  glm_vec4_scale(v, eta, temp);
+  glm_vec4_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec4_copy(temp, dest);
   return true;
 }
 
-- 
2.43.0


From 99af92d98a7df2dd8dc6cf573b50a06901511494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 20/25] fix: glm_aabb_crop_until and glm_aabb2d_crop_until
 ignored the clamp box when it is dest

---
 include/cglm/aabb2d.h | 7 +++++--
 include/cglm/box.h    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index a153a83..1cb505a 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -131,8 +131,11 @@ glm_aabb2d_crop_until(vec2 aabb[2],
                       vec2 cropAabb[2],
                       vec2 clampAabb[2],
                       vec2 dest[2]) {
-  glm_aabb2d_crop(aabb, cropAabb, dest);
-  glm_aabb2d_merge(clampAabb, dest, dest);
+  vec2 temp[2];
+
+  /* dest can be any of the boxes */
+  glm_aabb2d_crop(aabb, cropAabb, temp);
+  glm_aabb2d_merge(clampAabb, temp, dest);
 }
 
 /*!
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 00fdae4..587a3e0 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -113,8 +113,11 @@ glm_aabb_crop_until(vec3 box[2],
                     vec3 cropBox[2],
                     vec3 clampBox[2],
                     vec3 dest[2]) {
-  glm_aabb_crop(box, cropBox, dest);
-  glm_aabb_merge(clampBox, dest, dest);
+  vec3 temp[2];
+
+  /* dest can be any of the boxes */
+  glm_aabb_crop(box, cropBox, temp);
+  glm_aabb_merge(clampBox, temp, dest);
 }
 
 /*!
-- 
2.43.0


From 863513b86087ed034a4891b85f57632dddd18ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 21/25] fix: choose the printed number format by the element
 printed, not its transpose

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 5e7be087aec7fa878481b34633066af69adff741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 22/25] fix: glms_aabb2d_radius called a function that does not
 exist

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From 92eccb5a4b9b0cfb62fe776b75e4b9eb08466680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 23/25] fix: struct box crop_until kept the wrong box when dest
 was clampBox

---
 include/cglm/struct/aabb2d.h | 7 +++++--
 include/cglm/struct/box.h    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index d7c13f1..83d5e15 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -101,8 +101,11 @@ glms_aabb2d_(crop_until)(vec2s aabb[2],
                        vec2s cropAabb[2],
                        vec2s clampAabb[2],
                        vec2s dest[2]) {
-  glms_aabb2d_(crop)(aabb, cropAabb, dest);
-  glms_aabb2d_(merge)(clampAabb, dest, dest);
+  vec2s temp[2];
+
+  /* dest can be any of the boxes */
+  glms_aabb2d_(crop)(aabb, cropAabb, temp);
+  glms_aabb2d_(merge)(clampAabb, temp, dest);
 }
 
 /*!
diff --git a/include/cglm/struct/box.h b/include/cglm/struct/box.h
index ac32328..fcc551f 100644
--- a/include/cglm/struct/box.h
+++ b/include/cglm/struct/box.h
@@ -101,8 +101,11 @@ glms_aabb_(crop_until)(vec3s box[2],
                        vec3s cropBox[2],
                        vec3s clampBox[2],
                        vec3s dest[2]) {
-  glms_aabb_(crop)(box, cropBox, dest);
-  glms_aabb_(merge)(clampBox, dest, dest);
+  vec3s temp[2];
+
+  /* dest can be any of the boxes */
+  glms_aabb_(crop)(box, cropBox, temp);
+  glms_aabb_(merge)(clampBox, temp, dest);
 }
 
 /*!
-- 
2.43.0


From 0cfb896f6d541d1e995aaccf88add81b3e15bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 24/25] fix: struct/handed/euler_to_quat_*.h could not be
 included

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 5f53e0db4be6b44d3bbd5c7344212698ca35d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 25/25] fix: glmm256_fnmsub computed the wrong sign

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..e44c3ba 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0

