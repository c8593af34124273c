From 0ead37b39a8663aa12bbf842a5e29bb195090e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 01/17] fix: accept stop_index=-1 in
 unwarp_chunk_slices_backward

The sentinel was mapped to 'height', which the range check that follows always
rejects; the last valid (inclusive) index is height - 1.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From dea2a76bc17d9a1494a9ced7389d92fa8dc20173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 02/17] fix: do not wrap row/column indices above 32767

Indices were cast to int16, so slices and profiles taken beyond row/column
32767 silently came from the wrong place, or were rejected as out of range.
---
 discorpy/post/postprocessing.py | 10 +++++-----
 discorpy/prep/linepattern.py    |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..32ff18a 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = int(np.floor(np.amin(yd_list1)))
+    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..68288d7 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = int(np.floor(np.amin(ylist)))
+        ymax = int(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = int(np.floor(np.amin(xlist)))
+        xmax = int(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From 2ddedc756f048f989fd708558f4237de88565bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 03/17] fix: replace zeros of the background before dividing by
 it

Numpy never raises ZeroDivisionError for arrays, so the fallback was dead code
and zeros in the background gave nan/inf pixels.
---
 discorpy/prep/preprocessing.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..6d28446 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,8 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +147,8 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From 0679e0251a75adf3d1cc7dc693b03682aca8d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 04/17] fix: report grids without opposite curves in
 correct_perspective_effect

np.where returns a tuple of length 1, so the four checks could never fail and
the function went on with the mean of an empty selection (nan).
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..94d0d39 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1375,25 +1375,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
         raise ValueError("Need at least 2 horizontal lines!!!")
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
-    indices = np.where(list_coef_hor[:, 0] > 0)
+    indices = np.where(list_coef_hor[:, 0] > 0)[0]
     if len(indices) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
-    indices = np.where(list_coef_hor[:, 0] < 0)
+    indices = np.where(list_coef_hor[:, 0] < 0)[0]
     if len(indices) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
-    indices = np.where(list_coef_ver[:, 0] > 0)
+    indices = np.where(list_coef_ver[:, 0] > 0)[0]
     if len(indices) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
-    indices = np.where(list_coef_ver[:, 0] < 0)
+    indices = np.where(list_coef_ver[:, 0] < 0)[0]
     if len(indices) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
-- 
2.43.0


From fcb52576ccdcb348aa6272def25a2f15415e924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 05/17] fix: drop, instead of crash on, points outside the
 parabola mask

The mask was indexed with all points, including those the bounds test is meant
to remove, which raised IndexError.
---
 discorpy/prep/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 6d28446..ee6f8e1 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -953,7 +953,8 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
     valid_indices = ((y_cors >= 0) & (y_cors < height) &
                      (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+                     (mask[np.clip(y_cors, 0, height - 1),
+                           np.clip(x_cors, 0, width - 1)] == 1.0))
     return points[valid_indices]
 
 
-- 
2.43.0


From 65b00be01d0935c8d10713d14ff9856f5bfa407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 06/17] fix: do not truncate results for integer inputs

Output buffers inherited the dtype of the input, so unwarped coordinates and
sliding slopes of integer arrays were silently truncated.
---
 discorpy/post/postprocessing.py | 4 ++--
 discorpy/prep/linepattern.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 32ff18a..5a3b415 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 68288d7..064c60d 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros_like(list_data, dtype=np.float64)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From cc8807989303452fb7b07c7a8c17075b7e14f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 07/17] fix: keep pixel values when saving to .TIF/.TIFF

The extension was compared case-sensitively, so data saved to 'X.TIF' was
rescaled to 8 bits.
---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..d8fcee2 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -427,7 +427,7 @@ def save_image(file_path, mat, overwrite=True):
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = np.min(mat), np.max(mat)
-- 
2.43.0


From 0179bc146b4ce4be13da9c66462e0934f4cec4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 08/17] fix: average the channels, not the rows, of small
 colour images

The channel axis was guessed as the shortest one, which is wrong for images
with fewer rows or columns than channels.
---
 discorpy/losa/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index d8fcee2..5dbfc2e 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,8 +101,7 @@ def load_image(file_path, average=True):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From b5ed7a7438ccd0769e75286f4ed29227984fdb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 09/17] fix: skip degenerate lines in calc_coef_backward

A line through the distortion center gives a zero intercept and a division by
zero (LinAlgError); calc_coef_forward already skips those.
---
 discorpy/proc/processing.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 94d0d39..3511cb5 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -452,23 +452,29 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
+        if uc_coef == 0.0:
+            continue
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
             rd = np.sqrt(xd * xd + yd * yd)
             Fb = (a_coef * xd * xd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+            if Fb != 0.0:
+                Amatrix.append(np.power(rd / Fb, list_expo))
+                Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
+        if uc_coef == 0.0:
+            continue
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
             rd = np.sqrt(xd * xd + yd * yd)
             Fb = (a_coef * yd * yd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+            if Fb != 0.0:
+                Amatrix.append(np.power(rd / Fb, list_expo))
+                Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
     Bmatrix = np.asarray(Bmatrix, dtype=np.float64)
     list_fact = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]
-- 
2.43.0


From 82ea769006df6f59823b57e5dd04363a678dcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 10/17] fix: handle parabolas with the same curvature when
 finding cross points

np.roots returns fewer than two roots then, and the callers unpack two.
---
 discorpy/proc/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 3511cb5..1c4b4be 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1446,7 +1446,7 @@ def _find_cross_point_between_parabolas_same_direction(para_coef1, para_coef2):
     b = para_coef1[1] - para_coef2[1]
     c = para_coef1[2] - para_coef2[2]
     results = np.roots([a, b, c])
-    if np.iscomplexobj(results):
+    if np.iscomplexobj(results) or len(results) < 2:
         return None
     return results
 
-- 
2.43.0


From 216fccfba28aea1ea1cccd34aef463d8e0f36d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 11/17] fix: do not reuse points of another line when grouping
 two-point lines

A group of two points was skipped but the points left over from the previous
step (the whole search window, or the previous line) were appended instead.
---
 discorpy/prep/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index ee6f8e1..bbef6ec 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1192,8 +1192,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
+                selected_points = current_points
                 if len(current_points) > 2:
-                    selected_points = current_points
                     x_left = selected_points[0, 1]
                     x_right = selected_points[-1, 1]
                     selected_points = _get_nearby_hor_points_iter(
@@ -1371,8 +1371,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
+                selected_points = current_points
                 if len(current_points) > 2:
-                    selected_points = current_points
                     y_left = selected_points[0, 0]
                     y_right = selected_points[-1, 0]
                     selected_points = _get_nearby_ver_points_iter(
-- 
2.43.0


From 300b63836c65e43f0336ae42936b19d201ce291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 12/17] fix: stop unwarp_video_cv2 when the stream has no more
 frames

After the last frame of a video file the loop never ended and the capture
was never released.
---
 discorpy/util/utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..9662e2e 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -510,5 +510,7 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
             c = cv2.waitKey(1)
             if c == 27:
                 break
+        else:
+            break
     cam_obj.release()
     cv2.destroyAllWindows()
-- 
2.43.0


From bac11768b188044bfebe21bc9e41e84c79694a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 13/17] fix: close hdf files that are no longer used

load_hdf_file never closed its file, and load_hdf_object and open_hdf_stream
kept it open when rejecting a key, so it could not be written again.
---
 discorpy/losa/loadersaver.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5dbfc2e..601cdff 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -265,11 +265,19 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
     array_like
         2D array or 3D array.
     """
-    mat = None
     try:
         ifile = h5py.File(__get_path(file_path), 'r')
     except Exception as error:
         raise ValueError(f"Error: {error}")
+    with ifile:
+        return _read_hdf_data(ifile, key_path, index, axis)
+
+
+def _read_hdf_data(ifile, key_path, index, axis):
+    """
+    Read data from an opened hdf file. Supplementary method for load_hdf_file.
+    """
+    mat = None
     if key_path is None:
         key_path = ifile.visititems(_get_key)  # Find the key automatically
         if key_path is None:
@@ -350,6 +358,7 @@ def load_hdf_object(file_path, key_path):
         raise ValueError(f"Error: {error}")
     check = key_path in ifile
     if not check:
+        ifile.close()
         raise ValueError(f"Couldn't open object with the key: {key_path}")
     return ifile[key_path]
 
@@ -649,6 +658,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
                           "child key-path of '{1}' !!!\n!!! Change to make " \
                           "sure they are at the same level " \
                           "!!!".format(key, key_path)
+                    ofile.close()
                     raise ValueError(msg)
                 ofile.create_dataset(key, data=opts[key])
     data_out = ofile.create_dataset(key_path, data_shape, dtype=data_type)
-- 
2.43.0


From fa9c96ef9fb61afede13a620bff6bfbbf8e062a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 14/17] fix: loading single slices of a hdf dataset

A numpy integer index crashed, a one-element selection along axis 2 raised
IndexError, and an integer index dropped a second dimension of length one.
---
 discorpy/losa/loadersaver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 601cdff..9b70b58 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -297,7 +297,7 @@ def _read_hdf_data(ifile, key_path, index, axis):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
@@ -329,10 +329,10 @@ def _read_hdf_data(ifile, key_path, index, axis):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
             if mat.shape[axis] == 0:
                 raise ValueError("Empty indices!")
+            if len(mat.shape) == 3 and mat.shape[axis] == 1:
+                mat = np.take(mat, 0, axis=axis)
     return mat
 
 
-- 
2.43.0


From 68ea7d920145afb8b69c461bf34d9ef824055107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 15/17] fix: leave pyplot as it was after saving a plot

A failed save left its figure open (and the fonts changed), and
save_residual_plot reset every rcParams of the caller to the defaults.
---
 discorpy/losa/loadersaver.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 9b70b58..d8eb93b 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -501,7 +501,8 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
         plt.savefig(file_path, dpi=dpi)
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
+    finally:
+        plt.close(fig)
     return file_path
 
 
@@ -561,6 +562,7 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     fig = plt.figure(frameon=False)
     fig.set_size_inches(width / dpi, height / dpi)
     m_size = 0.5 * min(height / dpi, width / dpi)
+    rc_params = plt.rcParams.copy()
     plt.rc('font', size=np.int16(m_size * 4))
     if __check_font(font_family):
         plt.rcParams['font.family'] = font_family
@@ -572,8 +574,9 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
         plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
+    finally:
+        plt.close(fig)
+        plt.rcParams.update(rc_params)
     return file_path
 
 
@@ -713,9 +716,10 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
                  markersize=m_size)
     try:
         plt.savefig(file_path, dpi=dpi)
-    except IOError:
-        raise ValueError("Couldn't write to file {}".format(file_path))
-    plt.close()
+    except Exception as error:
+        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
+    finally:
+        plt.close(fig)
     return file_path
 
 
-- 
2.43.0


From 414ed52581e97bf449c382895997f94bda95d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 16/17] fix: honour overwrite=False for plots saved without an
 extension

Matplotlib appends '.png' itself, so the existence check and the returned path
referred to another name than the file written, which could be overwritten.
---
 discorpy/losa/loadersaver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index d8eb93b..a3d5f9a 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -484,7 +484,10 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -555,7 +558,10 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -701,6 +707,8 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-- 
2.43.0


From b0851eff1ea91f8eebe5ded7feb91e05de0ffc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 17/17] fix: rescale integer and boolean images without
 wrapping

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index a3d5f9a..d224f5b 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -438,7 +438,7 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
-- 
2.43.0

