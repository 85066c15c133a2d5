From 7abf9e35ca2a114794f5231f6c2534eb76fc490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 01/15] fix: return the perspective matrix as a heap block the
 caller owns

The identity fallback was a pointer to a mutable static object: callers that
free the result (the Haskell bindings) freed static memory, and
fcv_apply_matrix_3x3's patching of a flip matrix could alter it for later calls.
Callers decided by value whether to free and leaked real identity results.
The allocation was also used unchecked.
---
 src/extract_document.c     | 20 ++------------------
 src/perspectivetransform.c | 31 ++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..1e1a967 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -56,15 +56,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
@@ -151,15 +143,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..0441e4d 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -100,9 +100,21 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
   return 1;
 }
 
+/**
+ * Allocate an identity matrix (owned by the caller, NULL on failure)
+ */
+static Matrix3x3 *alloc_identity_matrix(void) {
+  Matrix3x3 *identity = malloc(sizeof(Matrix3x3));
+  if (identity) {
+    *identity = (Matrix3x3){1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
+  }
+  return identity;
+}
+
 /**
  * Calculate the perspective transformation matrix
  * from the source and destination corner coordinates.
+ * The result must be freed by the caller.
  */
 Matrix3x3 *fcv_calculate_perspective_transform(
   Corners *src_corners,
@@ -113,12 +125,9 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   double b[8] = {0};
   double x[8] = {0};
 
-  // Identity matrix as fallback
-  static Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
-
   if (!src_corners || !dst_corners) {
     log("Error: NULL pointer passed to calculate_perspective_transform\n");
-    return &identity;
+    return alloc_identity_matrix();
   }
 
 #ifdef DEBUG_LOGGING
@@ -159,7 +168,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isnan(dst_corners->br_x) || isnan(dst_corners->br_y) ||
       isnan(dst_corners->bl_x) || isnan(dst_corners->bl_y)) {
     log("Error: Invalid coordinates (NaN) detected\n");
-    return &identity;
+    return alloc_identity_matrix();
   }
 
   // Set up the system of equations
@@ -197,7 +206,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
     // Validate extracted coordinates
     if (isinf(srcX) || isinf(srcY) || isinf(dstX) || isinf(dstY)) {
       log("Error: Invalid coordinates (Inf) detected\n");
-      return &identity;
+      return alloc_identity_matrix();
     }
 
     // First four equations for x coordinates
@@ -220,18 +229,21 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   log("Solve the system of equations …\n");
   if (!solve_linear_system(A, b, x)) {
     log("Failed to solve system, returning identity matrix\n");
-    return &identity;
+    return alloc_identity_matrix();
   }
 
   // Validate solution
   for (int32_t i = 0; i < 8; i++) {
     if (isnan(x[i]) || isinf(x[i]) || fabs(x[i]) > 1e6) {
       log("Error: Invalid solution values detected\n");
-      return &identity;
+      return alloc_identity_matrix();
     }
   }
 
   Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (!result) {
+    return NULL;
+  }
   *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
 
 #ifdef DEBUG_LOGGING
@@ -249,7 +261,8 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isinf(result->m10) || isinf(result->m11) || isinf(result->m12) ||
       isinf(result->m20) || isinf(result->m21) || isinf(result->m22)) {
     log("Error: Invalid values in result matrix\n");
-    return &identity;
+    free(result);
+    return alloc_identity_matrix();
   }
 
   return result;
-- 
2.43.0


From f99f4b82b70dc447cc3aaa2495d374a5aa059538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 02/15] fix: do not modify the caller's matrix in
 fcv_apply_matrix_3x3

---
 src/perspectivetransform.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 0441e4d..af2442e 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -299,12 +299,14 @@ uint8_t *fcv_apply_matrix_3x3(
     return NULL;
   }
 
-  // Patch flip matrix if needed
-  if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
-      tmat->m02 == 0.0 && tmat->m12 == 0.0) {
-    tmat->m02 = in_width - 1;
-    tmat->m12 = in_height - 1;
+  // Patch flip matrix if needed (on a copy, the caller's matrix is kept as is)
+  Matrix3x3 patched = *tmat;
+  if (fabs(patched.m00 + 1.0) < 1e-9 && fabs(patched.m11 + 1.0) < 1e-9 &&
+      patched.m02 == 0.0 && patched.m12 == 0.0) {
+    patched.m02 = in_width - 1;
+    patched.m12 = in_height - 1;
   }
+  tmat = &patched;
 
   uint8_t *out_data = calloc(out_pixels * 4, sizeof(uint8_t));
 
-- 
2.43.0


From b5a6cb4252624bff3f6729438288b6113ffccd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 03/15] fix: corner detection reports failure instead of
 terminating the process

A library call ended the calling process with exit() or assert() for null or
empty images, failed allocations and images without two regions. It now falls
back to the image corners, as it already did when grayscale conversion failed.
---
 src/corner_detection.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..0905eb7 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -1,4 +1,3 @@
-#include <assert.h>
 #include <math.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -46,9 +45,9 @@
  * 13. Normalize corners based on scale ratio
  */
 int32_t count_colors(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
+  if (!image || width <= 0 || height <= 0) {
+    return -1;
+  }
 
   int32_t color_count = 0;
   int32_t *color_map = (int32_t *)calloc(256 * 256 * 256, sizeof(int32_t));
@@ -110,9 +109,9 @@ void write_debug_img(Image img, const char *filename) {
  */
 Corners
 fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
+  if (!image || width <= 0 || height <= 0) {
+    return (Corners){0};
+  }
 
   Corners default_corners = {
     .tl_x = 0,
@@ -147,7 +146,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +167,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +176,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +207,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +224,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -248,7 +247,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -271,7 +270,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -301,7 +300,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -319,7 +318,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -327,7 +326,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -381,7 +380,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // First, sort all corners to get them in clockwise order
-- 
2.43.0


From 0c4543c53eb3b3d8865f8ae5cedad85d91391143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 04/15] fix: check and release the watershed result and the
 peak points in corner detection

---
 src/corner_detection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 0905eb7..35dcb8e 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -241,6 +241,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   );
   free((void *)bordered_elevation_map);
   free((void *)markers);
+  if (!segmented_image_wide) {
+    fprintf(stderr, "Error: Failed to segment elevation map\n");
+    return default_corners;
+  }
 
   // Remove 1 pixel border from segmented image
   uint8_t *segmented_image = malloc(out_width * out_height * 4);
@@ -256,6 +260,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       out_width * 4
     );
   }
+  free((void *)segmented_image_wide);
 
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
@@ -601,6 +606,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
   return sorted_corners;
 }
-- 
2.43.0


From 5e7096400acd5066bd3badd700432c9807bbb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:42 +0000
Subject: [PATCH 05/15] fix: corner detection with fewer than four peaks and
 failed allocations

With three peaks sort_corners wrote four results into a block for three, with
none the code computed 1 % 0 and read before any write, and with one or two it
read uninitialised memory. The work buffers were used unchecked.
---
 src/corner_detection.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 35dcb8e..b3d5267 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -389,7 +389,22 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   }
 
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
+  if (peaks->count < 3) {
+    fprintf(stderr, "Error: Found only %u corner peaks\n", peaks->count);
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+
+  // Sorting completes 3 corners to 4
+  uint32_t num_sorted = peaks->count < 4 ? 4 : peaks->count;
+  Point2D *sorted_result = calloc(num_sorted, sizeof(Point2D));
+  if (!sorted_result) {
+    fprintf(stderr, "Error: Failed to allocate memory for sorted corners\n");
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
   sort_corners(
     width,
     height,
@@ -414,6 +429,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for corner angles\n");
+      free(angles);
+      free(angle_indices);
+      free(sorted_result);
+      free(peaks->points);
+      free(peaks);
+      return default_corners;
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
-- 
2.43.0


From a3c7a980f301484c154b0bd27008206551c86ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 06/15] fix: Foerstner smoothing of images smaller than the
 kernel

height - half_kernel wrapped around for small images, so the loops read and
wrote far outside the buffers (e.g. a 1 pixel high image with sigma 1.5).
---
 src/foerstner_corner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..4ca6e18 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -110,8 +110,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
+    for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
-- 
2.43.0


From a3be9c10ed0e6441b0c116028e3d0f611e548390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 07/15] fix: endless loop on JPEG files that end after a marker

With the segment size missing the parser seeked 2 bytes back and read the same
marker forever.
---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 50415a2..ba4075d 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -52,6 +52,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
 
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) { // Truncated file or invalid segment
+      break;
+    }
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
-- 
2.43.0


From 366816b89a5b2ceb1288195dcb06130176b401ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 08/15] fix: return EXIF orientation 1 for stored values
 outside 1 to 8

---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index ba4075d..00797ec 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -99,6 +99,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
           fclose(file);
+          if (orientation < 1 || orientation > 8) {
+            return 1; // Invalid value
+          }
           return (int32_t)orientation;
         }
         else {
-- 
2.43.0


From 42264e60b7acb42b9c195cf8d94e60e054555803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 09/15] fix: ignore null data in fcv_apply_global_threshold
 like in the other operations

---
 src/conversion.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conversion.c b/src/conversion.c
index fb47d7c..860e421 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -205,6 +205,9 @@ void fcv_apply_global_threshold(
   uint8_t *data,
   uint8_t threshold
 ) {
+  if (!data) {
+    return;
+  }
   for (uint32_t i = 0; i < img_length_px; i++) {
     data[i] = data[i] > threshold ? 255 : 0;
   }
-- 
2.43.0


From a9397f27351303e9b6f8690f79a780e75f692316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:24 +0000
Subject: [PATCH 10/15] fix: Sobel edge detection of 3 channel images

Documented RGB input was read with a stride of 4 bytes, past the end of the
image. 2 channels are rejected.
---
 src/sobel_edge_detection.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..f9720f8 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -57,8 +57,25 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input, convert to grayscale
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    for (size_t i = 0; i < img_length_px; i++) {
+      grayscale_data[i] =
+        (data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT +
+         data[i * 3 + 2] * B_WEIGHT) >>
+        8;
+    }
+    allocated_grayscale = true;
+  }
+  else if (channels != 4) {
+    return NULL;
+  }
   else {
-    // Multi-channel input, convert to grayscale
+    // RGBA input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
     if (!grayscale_data) {
       return NULL;
-- 
2.43.0


From cbda49f075c62ee9b3469d26910e2648d79fe48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 11/15] fix: command line program checks its allocations

A failed allocation while building the pipeline or copying an operation's
parameter string was dereferenced; it is now reported as out of memory.
---
 src/cli.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..1981b70 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -50,6 +50,7 @@ typedef struct {
   PipelineOp *ops;
   int32_t count;
   int32_t capacity;
+  int32_t out_of_memory;
 } Pipeline;
 
 void print32_t_usage(const char *program_name) {
@@ -148,9 +149,17 @@ void print32_t_usage(const char *program_name) {
 
 Pipeline *create_pipeline(void) {
   Pipeline *p = malloc(sizeof(Pipeline));
+  if (!p) {
+    return NULL;
+  }
   p->capacity = 8;
   p->count = 0;
+  p->out_of_memory = 0;
   p->ops = malloc(sizeof(PipelineOp) * p->capacity);
+  if (!p->ops) {
+    free(p);
+    return NULL;
+  }
   return p;
 }
 
@@ -187,8 +196,13 @@ void add_operation(
   int32_t has_string_param
 ) {
   if (p->count >= p->capacity) {
+    PipelineOp *ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity * 2);
+    if (!ops) {
+      p->out_of_memory = 1;
+      return;
+    }
+    p->ops = ops;
     p->capacity *= 2;
-    p->ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
   }
 
   strncpy(
@@ -442,6 +456,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -518,6 +537,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -634,6 +658,11 @@ int32_t parse_pipeline(
       else if (strcmp(piece, "extract_document_to") == 0) {
         // Parse output dimensions in format "widthxheight"
         char *params_copy = strdup(params_str);
+        if (!params_copy) {
+          fprintf(stderr, "Error: out of memory\n");
+          free(combined);
+          return 0;
+        }
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
@@ -806,6 +835,10 @@ int32_t parse_pipeline(
   }
 
   free(combined);
+  if (pipeline->out_of_memory) {
+    fprintf(stderr, "Error: out of memory\n");
+    return 0;
+  }
   return 1;
 }
 
@@ -843,6 +876,9 @@ uint8_t *apply_operation(
     if (has_string_param) {
       // Parse new resize formats: 50%, 50%x80%, 200x300
       char *param_copy = strdup(param_str);
+      if (!param_copy) {
+        return NULL;
+      }
       char *x_pos = strchr(param_copy, 'x');
 
       if (x_pos) {
@@ -985,6 +1021,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1019,6 +1058,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1057,6 +1099,9 @@ uint8_t *apply_operation(
 
     // Parse marker coordinates from param_str: "x1×y1 x2×y2 ..."
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
 
     // Count number of markers by counting spaces + 1
     int32_t num_markers = 1;
@@ -1530,6 +1575,10 @@ int32_t main(int32_t argc, char *argv[]) {
 
   // Parse pipeline from arguments between input and output
   Pipeline *pipeline = create_pipeline();
+  if (!pipeline) {
+    fprintf(stderr, "Error: out of memory\n");
+    return 1;
+  }
   int32_t pipeline_end_idx = is_detect_corners_only ? argc : argc - 1;
   if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) {
     free_pipeline(pipeline);
-- 
2.43.0


From abf16dc6dea2d1de6c126554012c5f99875b29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 12/15] fix: reject empty images in fcv_extract_document_auto
 before writing the output size

---
 src/extract_document.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extract_document.c b/src/extract_document.c
index 1e1a967..9230e9d 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -73,6 +73,10 @@ uint8_t *fcv_extract_document_auto(
     return NULL;
   }
 
+  if (width == 0 || height == 0) {
+    return NULL;
+  }
+
   // Step 1: Detect corners of the document
   Corners detected_corners = fcv_detect_corners(data, width, height);
 
-- 
2.43.0


From 6e8364ac46608240142b43c157be06d56ac63530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 13/15] fix: stop when the EXIF orientation cannot be applied

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1981b70..c1efd03 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1643,10 +1643,14 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
+      if (!rotated_data) {
+        fprintf(stderr, "Error: Could not apply EXIF orientation\n");
         stbi_image_free(image_data);
-        image_data = rotated_data;
+        free_pipeline(pipeline);
+        return 1;
       }
+      stbi_image_free(image_data);
+      image_data = rotated_data;
     }
   }
 
-- 
2.43.0


From 9c40c8d64d9d87e92d602e9d941b57ce619a0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 14/15] fix: keep the whole string parameter of a pipeline
 operation

---
 src/cli.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index c1efd03..eb99a0d 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -38,7 +38,7 @@ typedef struct {
   double param2;
   double param3;
   double param4;
-  char param_str[64]; // For string parameters like "50%" or "200x300"
+  char *param_str; // For string parameters like "50%" or "200x300" (owned)
   int32_t has_param;
   int32_t has_param2;
   int32_t has_param3;
@@ -165,6 +165,9 @@ Pipeline *create_pipeline(void) {
 
 void free_pipeline(Pipeline *p) {
   if (p) {
+    for (int32_t i = 0; i < p->count; i++) {
+      free(p->ops[i].param_str);
+    }
     free(p->ops);
     free(p);
   }
@@ -220,16 +223,11 @@ void add_operation(
   p->ops[p->count].param4 = param4;
   p->ops[p->count].has_param4 = has_param4;
 
-  if (has_string_param && param_str) {
-    strncpy(
-      p->ops[p->count].param_str,
-      param_str,
-      sizeof(p->ops[p->count].param_str) - 1
-    );
-    p->ops[p->count].param_str[sizeof(p->ops[p->count].param_str) - 1] = '\0';
-  }
-  else {
-    p->ops[p->count].param_str[0] = '\0';
+  p->ops[p->count].param_str =
+    strdup(has_string_param && param_str ? param_str : "");
+  if (!p->ops[p->count].param_str) {
+    p->out_of_memory = 1;
+    return;
   }
   p->ops[p->count].has_string_param = has_string_param;
 
-- 
2.43.0


From f42a96dd2ac327deaa34d8399357bd310263ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 15/15] fix: reject images whose pixels the corner detector
 cannot index

---
 src/foerstner_corner.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 4ca6e18..4e1ab2a 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,6 +27,11 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Check for overflow: pixels are indexed with 32 bit integers
+  if (width > INT32_MAX / height) {
+    return NULL;
+  }
+
   // Allocate memory for gradient images
   double *grad_x = calloc(width * height, sizeof(double));
   double *grad_y = calloc(width * height, sizeof(double));
-- 
2.43.0

