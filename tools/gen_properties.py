#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the list stays reviewable)."""
import json
I="inputs"; C="configurations"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["return value / dest argument of the public function"],hook_needed=None))
    P.append(d)

p("C01","Compiled (glmc_) functions compute exactly what the inline (glm_) ones do",
  "For every function exported by the compiled library (glmc_*), and for every input, the result written to its outputs and its return value are the same as those of the inline function of the same name (glm_*).",
  [I,C],"every glmc_ entry point that has an inline counterpart; every input value; default and the other clip-space/handedness builds",
  "Tests compare both on a handful of random inputs for part of the functions; many glmc_ wrappers (clip-space variants, ivec, ease, aabb2d) are never called with inputs that tell two similar functions or swapped arguments apart.",
  ["src","include/cglm/call"],[("one wrapper per function forwarding to the inline version","src/*.c"),("call headers","include/cglm/call/*.h")])
p("C02","Struct API (glms_) computes exactly what the array API (glm_) does",
  "For every struct-API function (glms_*) and every input, the returned or updated struct holds exactly what the array function of the same name (glm_*) writes to its destination for the same argument values.",
  [I,C],"every glms_ function with a glm_ counterpart; every input value; both clip-space selections",
  "test_struct.c only checks type sizes/layout and a few conversions; the struct wrappers are exercised by almost no test, so a wrong argument order or wrong callee passes the suite.",
  ["include/cglm/struct","include/cglm/struct.h","include/cglm/types-struct.h"],[("wrappers that unpack .raw and call the array function","include/cglm/struct/*.h"),("union layouts","include/cglm/types-struct.h")])
p("C03","Every SIMD back end computes the same function as the scalar code",
  "For every function and every finite input for which the scalar code is defined, the builds with SSE2, SSE3/SSE4 dot products, AVX, AVX2+FMA, ARM NEON and WebAssembly SIMD compute the same result as the build with no SIMD at all, up to floating-point rounding; explicitly approximate (\"fast\") inverses agree up to the reciprocal estimate.",
  [I,C],"every glm_ function whose code differs between instruction-set configurations x every configuration x all inputs",
  "The suite is built for exactly one instruction set (baseline x86-64 SSE2, gcc -O3); the scalar, AVX, FMA, NEON and WASM code is not even compiled, so no test can see it.",
  ["include/cglm/simd","include/cglm/mat4.h","include/cglm/quat.h","include/cglm/vec4.h","include/cglm/affine-mat.h","include/cglm/mat2.h","include/cglm/mat3.h"],
  [("#if dispatch to SIMD versions","include/cglm/mat4.h, mat2.h, mat3.h, quat.h, vec4.h, affine-mat.h"),("per-ISA kernels","include/cglm/simd/{sse2,avx,neon,wasm}/*.h"),("ISA helper layer","include/cglm/simd/{x86,arm,wasm}.h")])
p("C04","Destination may be the same object as an input",
  "Calling a vector, matrix, quaternion or affine function with its destination being the very object passed as one of its inputs gives the same result as calling it with a separate destination, in every instruction-set configuration. (The only exceptions are glm_decompose and glm_decompose_rs with an output inside their own input matrix.)",
  [I,C],"every (function, input parameter) pair of matching type, minus a fixed documented exception table; all inputs; scalar, SSE, AVX, NEON, WASM builds",
  "Tests call few functions in place, and only in the SSE2 build; the other builds read and write in different orders.",
  ["include/cglm"],[("documented: m1, m2 and dest can be the same matrix","include/cglm/mat4.h, mat3.h, mat2.h"),("temporaries/registers loaded before the first store","all dest-writing functions")])
p("C05","No function reads or writes outside its arguments, misaligned, or uninitialised",
  "Every function only reads inside the objects passed to it and only writes inside its destination objects, whatever the input values; with CGLM_ALL_UNALIGNED no access assumes more alignment than the type guarantees; and no result or branch depends on uninitialised memory.",
  [I,C],"every glm_ function; objects of exactly the documented size; all input values (including those that steer branches and indices); aligned/unaligned builds; every instruction set",
  "Tests pass values on larger stack arrays without sanitizers, in the aligned SSE2 build only; a one-element over-read or over-write or an aligned load of an unaligned type goes unnoticed.",
  ["include/cglm"],[("fixed-size array types","include/cglm/types.h"),("glmm_load/store vs loadu","include/cglm/simd/*.h"),("partial loads for vec3","include/cglm/simd/*/mat3.h")])
p("C06","Inputs are left untouched; in-place functions change only what they claim",
  "A function never modifies an argument that it documents as input only, and matrix functions that update part of an object leave the other components exactly as they were (bit for bit).",
  [I,C],"every glm_ function x every input-only parameter x all inputs and instruction sets; partial updates (upper 3x3 writes, pick/insert, column/row swaps, scale, translate) for the untouched cells",
  "Tests look at the destination; they almost never re-check the inputs or the cells that should have been left alone, and only on sample values.",
  ["include/cglm"],[("dest/input argument convention","include/cglm/*.h")])
p("C07","Matrix inverses and determinants are exact inverses and determinants",
  "For every invertible 2x2, 3x3 and 4x4 matrix the inverse multiplied by the matrix is the identity, the determinant is the true determinant, and the rigid/affine inverse inverts every rotation+translation matrix, up to rounding; the fast inverse does so up to the reciprocal estimate.",
  [I,C],"every real matrix with non-zero determinant (rigid matrices for the rigid inverse); scalar, SSE2, AVX, FMA, NEON, WASM code",
  "Tests invert a few random matrices in one build; a wrong cofactor sign or lane shuffle that cancels on symmetric/affine samples, or lives in another ISA kernel, stays invisible.",
  ["include/cglm/mat2.h","include/cglm/mat3.h","include/cglm/mat4.h","include/cglm/affine-mat.h","include/cglm/simd"],
  [("cofactor expansion","include/cglm/mat{2,3,4}.h"),("SIMD inverses","include/cglm/simd/*/mat{2,3,4}.h"),("rigid inverse","include/cglm/affine-mat.h")])
p("C08","Matrix algebra: products, transposes, scaling, swaps and traces are correct",
  "For all operands, square and non-square matrix products, matrix-vector products, quadratic forms (row*matrix*column), chained products, transposes, scalar multiplication, trace, row/column swaps, sub-matrix extraction and insertion equal their textbook definitions under the column-major convention, up to rounding.",
  [I,C],"all matrices of 2x2..4x4 incl. 2x3,2x4,3x2,3x4,4x2,4x3; all vectors; every row/column index; every instruction set",
  "Tests sample random or constant matrices in one ISA build; index slips that only matter for particular entries or non-square shapes or untested ISA kernels pass.",
  ["include/cglm/mat2.h","include/cglm/mat3.h","include/cglm/mat4.h","include/cglm/mat2x3.h","include/cglm/mat2x4.h","include/cglm/mat3x2.h","include/cglm/mat3x4.h","include/cglm/mat4x2.h","include/cglm/mat4x3.h","include/cglm/affine-mat.h","include/cglm/simd"],
  [("scalar expansions","include/cglm/mat*.h"),("SIMD kernels","include/cglm/simd/*/mat*.h")])
p("C09","Quaternion algebra is Hamilton's",
  "For all quaternions, product, conjugate, inverse, norm, dot, normalisation, axis/angle construction and extraction, scalar/real/imaginary parts and add/sub obey Hamilton's algebra (q*inv(q)=1, |pq|=|p||q|, axis-angle round trip), with normalisation of a zero quaternion giving the identity.",
  [I,C],"all quaternions (non-zero where an inverse is taken); every instruction set",
  "Identities over four or eight real variables are sampled at a few points by the tests, in one build.",
  ["include/cglm/quat.h","include/cglm/simd"],[("quat_mul and friends","include/cglm/quat.h"),("SIMD quat_mul","include/cglm/simd/*/quat.h")])
p("C10","Quaternions and rotation matrices describe the same rotation",
  "For every unit quaternion, the 3x3 and 4x4 matrices (and their transposed forms), vector rotation, matrix rotation, rotation about a pivot, and the conversion from a rotation matrix back to a quaternion (up to overall sign, in all four numerical branches) all denote the same rotation; the quaternion between two directions rotates the first onto the second, and look/for quaternions face the requested direction.",
  [I,C],"all unit quaternions / proper rotation matrices, all vectors, all branch choices of the conversion; every instruction set",
  "The conversion has four branches selected by trace/diagonal order and special cases for parallel and opposite vectors; tests touch a few rotations.",
  ["include/cglm/quat.h","include/cglm/mat3.h","include/cglm/mat4.h"],[("quat<->mat conversions","include/cglm/quat.h, mat3.h, mat4.h"),("glm_quat_from_vecs/for/forp/rotate*","include/cglm/quat.h")])
p("C11","Quaternion interpolation follows the stated path and hits its endpoints",
  "For all unit quaternions and all t, linear, clamped-linear, normalised-linear, spherical and longest-path spherical interpolation equal their defining formulas: endpoints reproduced (up to overall sign), the short arc taken (the long arc for the longest-path version), clamping only where promised, and unit results for the normalised versions.",
  [I,C],"all unit quaternion pairs including nearly equal, opposite and obtuse pairs; all t",
  "Behaviour splits on the sign and magnitude of the dot product and near-parallel thresholds; tests take one or two pairs.",
  ["include/cglm/quat.h"],[("glm_quat_lerp/lerpc/nlerp/slerp/slerp_longest","include/cglm/quat.h")])
p("C12","Euler angle matrices, extraction and quaternions agree for all six orders",
  "For all angles and all six rotation orders, the Euler matrix equals the product of the three axis rotations in that order, the by-order function equals the order-specific one, extraction from a rotation matrix returns angles that rebuild it (including gimbal lock), and the right-/left-handed Euler quaternions denote the rotation their convention defines.",
  [I,C],"all angle triples; six orders; both handedness settings; all XYZ rotation matrices for extraction, including |sin|=1",
  "Trigonometric identities in three angles, branches at gimbal lock; tests use a few fixed angles.",
  ["include/cglm/euler.h","include/cglm/handed"],[("per-order matrices","include/cglm/euler.h"),("per-order quaternions","include/cglm/handed/*.h"),("gimbal branches","include/cglm/euler.h:glm_euler_angles")])
p("C13","3D affine helpers apply exactly the named transform on the documented side",
  "For every matrix, vector, axis and angle, the 3D translate/rotate/scale/spin/rotate-about-point helpers (post-multiplying, pre-multiplying and make versions) equal multiplication by the corresponding elementary matrix on the documented side, rotation matrices are proper rotations about the normalised axis, affine products equal full products on affine matrices, and decomposition of translation*rotation*scale returns its factors.",
  [I,C],"all 4x4 (affine where the function requires it) matrices, vectors, non-zero axes, angles; mirrored and non-uniform scales for decomposition; every instruction set",
  "Symbolic identities over up to 20 variables plus sin/cos; tests check samples, mostly with identity or axis-aligned inputs in one build.",
  ["include/cglm/affine.h","include/cglm/affine-pre.h","include/cglm/affine-post.h","include/cglm/affine-mat.h","include/cglm/vec3.h"],[("glm_translate/rotate/scale/spin families","include/cglm/affine*.h"),("glm_decompose*","include/cglm/affine.h"),("glm_mul/glm_mul_rot","include/cglm/affine-mat.h")])
p("C14","2D affine helpers apply exactly the named transform on the documented side",
  "For every 3x3 matrix, vector and angle, the 2D translate/rotate/scale helpers (all variants) equal multiplication by the elementary 2D matrix on the documented side, and the texture-transform builders equal their documented product.",
  [I,C],"all 3x3 matrices (affine where assumed), vectors and angles; every instruction set",
  "Same as the 3D case: symbolic identities, a handful of samples in the tests.",
  ["include/cglm/affine2d.h","include/cglm/affine2d-post.h","include/cglm/mat3.h","include/cglm/mat4.h"],[("glm_translate2d*/rotate2d*/scale2d*","include/cglm/affine2d*.h"),("glm_mat3_textrans/glm_mat4_textrans","include/cglm/mat3.h, mat4.h")])
p("C15","Projections map their view volume exactly onto the clip volume they name",
  "In each of the four clip conventions (left/right handed, depth -1..1 or 0..1), frustum, perspective, orthographic (all construction helpers) map the corners of the requested view volume to the corners of that convention's clip cube, with the w component carrying the view depth for perspectives.",
  [I,C],"all valid near/far/left/right/bottom/top/fovy/aspect/AABB parameters; four clip conventions plus the build-selected default",
  "Four copies of similar formulas differing only in signs and ranges; tests compare wrappers to each other and to fixed numbers, so a sign or range slip off the sample or in one copy can pass.",
  ["include/cglm/cam.h","include/cglm/clipspace"],[("per-convention builders","include/cglm/clipspace/{persp,ortho}_*.h"),("dispatch","include/cglm/cam.h")])
p("C16","Projection decomposition and in-place edits are consistent with construction",
  "For every perspective matrix built by the library in any clip convention, decomposition recovers near, far, left, right, bottom, top, field of view, aspect and view sizes; resizing and moving the far plane give exactly the matrix that building from the new parameters would give.",
  [I,C],"all valid parameters; four clip conventions; every decomposition entry point (array, single-value, per-axis, near/far)",
  "Round trips are tested for a few fixed frusta; several per-axis decompositions and three of four conventions are barely tested.",
  ["include/cglm/cam.h","include/cglm/clipspace"],[("glm_persp_decomp*, glm_persp_fovy/aspect/sizes, glm_perspective_resize, glm_persp_move_far","include/cglm/clipspace/persp_*.h, cam.h")])
p("C17","View matrices are rigid and send eye and direction where they should",
  "For every eye, non-zero direction and non-parallel up vector, look-at/look/look-any-axis view matrices in every handedness are rigid transforms that send the eye to the origin and the viewing direction to the -Z (right-handed) or +Z (left-handed) axis with the up vector in the upper YZ half-plane, and the camera quaternion/vector helpers agree with them.",
  [I,C],"all eyes, directions, ups in general position; LH/RH x NO/ZO names and build selection",
  "Needs square roots of symbolic norms; tests use one or two cameras.",
  ["include/cglm/cam.h","include/cglm/clipspace"],[("view_{lh,rh}*.h","include/cglm/clipspace/view_*.h")])
p("C18","project and unproject are mutually inverse and hit the viewport correctly",
  "For every invertible matrix and viewport with non-zero size, projecting maps clip coordinates linearly onto the viewport and depth range of the convention, unproject undoes project, the z-only projection agrees with the full one, and the pick matrix maps the pick region onto the clip square.",
  [I,C],"all invertible 4x4 matrices, positions with non-zero w, viewports with positive size; both depth conventions and the build selection",
  "A rational identity in more than twenty variables; tests round-trip one or two matrices.",
  ["include/cglm/project.h","include/cglm/clipspace"],[("project_{no,zo}.h","include/cglm/clipspace"),("glm_unproject*, glm_pickmatrix","include/cglm/project.h")])
p("C19","Frustum planes, corners, centre and boxes describe the matrix's view volume",
  "For every view-projection matrix, the six extracted planes bound exactly the clip volume with unit normals pointing inwards, the eight corners are the preimages of the clip-cube corners in the documented order, and the centre, box and plane-at-distance helpers are the mean, exact bounds and interpolated corners of what they are given.",
  [I,C],"all invertible 4x4 matrices and corner sets; all instruction sets",
  "Tests barely cover this file (one test compares planes of one matrix).",
  ["include/cglm/frustum.h","include/cglm/plane.h"],[("glm_frustum_*","include/cglm/frustum.h"),("glm_plane_normalize","include/cglm/plane.h")])
p("C20","AABB and sphere operations satisfy their set-theoretic definitions",
  "For all boxes (2D and 3D), points and spheres: intersection tests, containment, merging, cropping, centre, size, radius, validity and invalidation agree with the definitions on closed point sets, and the box of a transformed box contains every transformed point and is tight.",
  [I,C],"all boxes with min<=max (any values where allowed), all points, spheres with non-negative radius, all affine matrices",
  "Set relations have many relative positions (inside, touching, crossing, each axis, either side); the tests sample a few of them.",
  ["include/cglm/box.h","include/cglm/aabb2d.h","include/cglm/sphere.h"],[("glm_aabb_*","include/cglm/box.h"),("glm_aabb2d_*","include/cglm/aabb2d.h"),("glm_sphere_*","include/cglm/sphere.h")])
p("C21","Frustum culling never drops a visible box",
  "For all boxes and all six planes, the frustum test answers 'outside' only when the whole box lies strictly behind at least one plane, and always answers 'outside' in that case; plane normalisation keeps the half-space.",
  [I,C],"all boxes with min<=max, all plane sextuples",
  "One wrong corner selection hides visible objects only for particular plane-normal signs; tests do not enumerate them.",
  ["include/cglm/box.h","include/cglm/plane.h"],[("p-vertex selection in glm_aabb_frustum","include/cglm/box.h")])
p("C22","Ray intersections report true hits at the true distance, and all of them",
  "For every ray and triangle in general position the triangle test returns true exactly when the ray meets the triangle in front of the origin and the reported distance is the distance to that point; for every unit-direction ray and sphere the sphere test returns the two true entry/exit parameters and reports no hit exactly when the line misses or the sphere lies behind; ray evaluation is origin + t*direction.",
  [I,C],"all triangles and rays off the determinant tolerance, all spheres",
  "Decision boundaries in up to fifteen variables; tests shoot a few axis-aligned rays.",
  ["include/cglm/ray.h"],[("glm_ray_triangle, glm_ray_sphere, glm_ray_at","include/cglm/ray.h")])
p("C23","Integer vector functions are exact over the whole int range",
  "For all int components for which no signed overflow occurs in the mathematical result, every integer-vector function (arithmetic, accumulate forms, division and remainder by C rules, min/max/clamp/abs, comparisons, norms and distances, fills, conversions) returns exactly its mathematical definition.",
  [I],"all 32-bit components (bit-precise), 2, 3 and 4 dimensional vectors",
  "Tests use small sample integers; sign handling of division/remainder, clamping and extreme values are sampled at best.",
  ["include/cglm/ivec2.h","include/cglm/ivec3.h","include/cglm/ivec4.h","include/cglm/util.h"],[("glm_ivec*","include/cglm/ivec{2,3,4}.h")])
p("C24","Comparisons, min/max, clamp, sign, NaN/Inf predicates are right for all floats",
  "For every 32-bit float including NaN, infinities, signed zeros and denormals, vector and scalar equality, approximate equality, any/all NaN/Inf/validity predicates, min/max/clamp, absolute value, sign, floor/fract/step and componentwise copies behave per component as documented, with no component ignored or compared with the wrong one.",
  [I,C],"all IEEE single values in every component (bit-precise); 2, 3 and 4 dimensional vectors; scalar and SIMD builds",
  "Special values in one particular component are exactly what sample tests leave out.",
  ["include/cglm/util.h","include/cglm/vec2.h","include/cglm/vec2-ext.h","include/cglm/vec3.h","include/cglm/vec3-ext.h","include/cglm/vec4.h","include/cglm/vec4-ext.h"],[("predicates","include/cglm/vec*-ext.h"),("minv/maxv/clamp","include/cglm/vec*.h"),("scalar helpers","include/cglm/util.h")])
p("C25","Interpolation, stepping, easing and percentage helpers follow their definitions",
  "For all inputs, scalar and vector lerp/mix (clamped and unclamped), step, smoothstep, smooth interpolation, percent and remapping helpers equal their definitions, clamp exactly where promised, and every easing function equals its standard curve: 0 at 0, 1 at 1, continuous where its pieces meet.",
  [I,C],"all parameters t (inside, outside and on piece boundaries of [0,1]); all endpoints; 2/3/4 dimensional and scalar forms",
  "Easing functions are not tested at all; interpolation is tested at one or two t values.",
  ["include/cglm/util.h","include/cglm/ease.h","include/cglm/vec2.h","include/cglm/vec3.h","include/cglm/vec4.h"],[("glm_lerp/step/smoothstep/percent","include/cglm/util.h"),("glm_ease_*","include/cglm/ease.h"),("vector forms","include/cglm/vec{2,3,4}.h")])
p("C26","Cubic curves evaluate their basis exactly",
  "For all control values and parameters, Bezier, Hermite and matrix-form (S*M*C) evaluation equal the Bernstein and Hermite polynomials, interpolate their end points, the cubic parameter vector is (t^3,t^2,t,1), the basis matrices are mutually consistent, and the de Casteljau solver returns a parameter whose curve value meets its tolerance (unless its iteration limit is reached).",
  [I,C],"all control values, all t; root solver up to a stated number of iterations",
  "Polynomials in five variables; tests compare two implementations at sample points.",
  ["include/cglm/bezier.h","include/cglm/curve.h","include/cglm/vec4.h","include/cglm/mat4.h"],[("glm_bezier, glm_hermite, glm_decasteljau","include/cglm/bezier.h"),("glm_smc","include/cglm/curve.h"),("glm_vec4_cubic, glm_mat4_rmc","include/cglm/vec4.h, mat4.h")])
p("C27","Vector geometry: norms, cross, angles, rotation, projection, reflect, refract",
  "For all vectors, dot/cross/norms/distances, normalisation (zero for a zero-length vector), rescaling, angles, rotation about an axis or by a matrix, projection, orthogonal vector, reflection, refraction and face-forward equal their geometric definitions and keep their invariants (cross orthogonal to both operands, rotation preserves length, reflection preserves length, refraction obeys Snell's law or reports total internal reflection).",
  [I,C],"all vectors (all axes incl. unnormalised, all angles), 2/3/4 dimensional; every instruction set",
  "Algebraic identities with square roots and trigonometry sampled at a few points in one build.",
  ["include/cglm/vec2.h","include/cglm/vec3.h","include/cglm/vec4.h","include/cglm/color.h"],[("vector functions","include/cglm/vec{2,3,4}.h"),("luminance","include/cglm/color.h")])
p("C28","Componentwise arithmetic and data movement touch the right components",
  "For all inputs, componentwise and accumulate vector operations (add, sub, mul, div, scale, muladd, addadd, maxadd, minsub, ... and their scalar forms), swizzles for every mask, fills, zero/one/identity constructors, copies, array-of builders and conversions between array sizes put exactly the specified value in every component.",
  [I,C],"all inputs, all 2/3/4 dimensional variants, every swizzle mask value, every instruction set",
  "There are hundreds of small variants; the tests check most of them on one vector, few in place or accumulating, and one ISA.",
  ["include/cglm/vec2.h","include/cglm/vec3.h","include/cglm/vec4.h","include/cglm/vec2-ext.h","include/cglm/vec3-ext.h","include/cglm/vec4-ext.h","include/cglm/util.h","include/cglm/mat2.h","include/cglm/mat3.h","include/cglm/mat4.h"],[("accumulate family","include/cglm/vec{2,3,4}.h"),("swizzle","include/cglm/vec3.h, vec4.h, util.h"),("make/copy","include/cglm/*.h")])
p("C29","Gradient noise vanishes on the lattice and is the reference noise everywhere",
  "For every point, 2D, 3D and 4D gradient noise equals classic periodic Perlin noise as published for GLSL (same permutation, gradients, fade and scale), in particular it is zero at every integer lattice point and identical across instruction-set builds.",
  [I,C],"all points (exact-arithmetic semantics with floor as an uninterpreted integer part); every instruction set",
  "Tests check a few dozen fixed points.",
  ["include/cglm/noise.h"],[("glm_perlin_vec2/vec3/vec4","include/cglm/noise.h")])
p("C30","Unsuffixed functions always mean the convention selected at build time",
  "For each combination of handedness and depth-range build macros, every unsuffixed projection, view, project/unproject and Euler-quaternion function computes exactly what the explicitly suffixed variant of that convention computes, in the inline, struct and compiled APIs alike.",
  [I,C],"four macro combinations x every dispatched function x all inputs; glm_, glms_ and glmc_ forms",
  "The suite is only built with the default macros; the dispatch branches for the other three conventions are never compiled.",
  ["include/cglm/common.h","include/cglm/cam.h","include/cglm/project.h","include/cglm/euler.h","include/cglm/struct/cam.h","include/cglm/struct/project.h"],[("CGLM_CONFIG_CLIP_CONTROL","include/cglm/common.h"),("#if dispatch","include/cglm/cam.h, project.h, euler.h")])
p("C31","Printing shows every element of the object",
  "For every vector, matrix, quaternion and box, the print functions write each element once, in row order for matrices, to the requested stream with the configured precision.",
  [I],"all element values; all print functions",
  "Tests only call the printers and ignore the text.",
  ["include/cglm/io.h"],[("glm_*_print","include/cglm/io.h")],["text written to the stream"])
p("C32","Named fields, type layouts, initialisers, constants and mask macros",
  "Every named field of a struct type (x..w, r..a, m00..m33, imag/real, col[i]) is the raw element that name denotes, for reading and writing; types have the documented sizes and at least the alignment their build promises; initialiser macros and struct values hold the stated zero/one/identity/black/axis values; mathematical constants are the correctly rounded values; corner and plane indices, default clip-space corners and shuffle masks denote what their names say; old spellings kept as macros do what the function they stand for does; conversions to Apple's simd types keep every element.",
  [I,C],"every named field of every struct type, every initialiser, constant and index macro; all stored bit patterns; SSE2, AVX, FMA, unaligned, NEON, WASM and the clip-space builds",
  "test_struct.c and test_cglm check a few sizes and fields; most matrix fields, initialisers and constants are used by no test, so two swapped names or a wrong digit pass.",
  ["include/cglm/types-struct.h","include/cglm/types.h","include/cglm/util.h","include/cglm/mat4.h","include/cglm/frustum.h","include/cglm/common.h"],
  [("union layouts with named members","include/cglm/types-struct.h"),("GLM_*_INIT / GLMS_*_INIT and constant macros","include/cglm/*.h, include/cglm/struct/*.h")],["struct fields, macro values"])
p("C33","SIMD helper primitives compute the operation their name stands for",
  "In every instruction-set build that has it, each helper of the SIMD layer (glmm_*) computes its operation: fmadd a*b+c, fnmadd -(a*b)+c, fmsub a*b-c, fnmsub -(a*b)-c (128 and 256 bit), lane-wise min/max/abs/div, sums, dots, minima, maxima and norms over all four lanes (result in every lane for v..., in lane 0 for v...s/vhmin/vhmax, as a float for the rest), splats, shuffles, sign flips, half combinations, three-component load and store.",
  [I,C],"every glmm_ helper; all real lane values; SSE2, SSE3, SSE4, AVX, FMA, unaligned, NEON (64 and 32 bit), WASM",
  "No test calls the helpers; many (fnmsub, vhmin, load3, combine_*, the 256-bit forms) are used by no library function either, so nothing executes them in any build.",
  ["include/cglm/simd/x86.h","include/cglm/simd/arm.h","include/cglm/simd/wasm.h"],[("helper functions and macros of each instruction set","include/cglm/simd/{x86,arm,wasm}.h")],["lanes of the result vector"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
