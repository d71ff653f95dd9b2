From a134c4472acab805d9198e3f689241b0297ee0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:30 +0000
Subject: [PATCH 01/40] fix: normalise focal length by max of image width and
 height when sensor size is unknown

The docs, and OpenSfM, define the unitless focal length relative to
max(sensor width, height), but it was scaled by the image width, which is
wrong for portrait images.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..554bc41 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -675,10 +675,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "the maximum of sensor width and height.",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From 0ce5d56c75b682f7c9af683c5dd8e1c957a67419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:24 +0000
Subject: [PATCH 02/40] fix: fisheye projection of points on the optical axis

theta_d / r is 0 / 0 there, which gave NaN rather than the principal point.
---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 554bc41..dbba7a6 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1475,7 +1475,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # avoid 0 / 0 on the optical axis, where theta_d / r -> 1
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 7397be918ec1e641b3bd96d52ad451e9bc211f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:32 +0000
Subject: [PATCH 03/40] fix: RPC projection of multiple pixels to a single
 element z array

A one element z array passes validation, and is broadcast by frame cameras,
but raised an IndexError for RPC cameras.
---
 orthority/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dbba7a6..93c87f2 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -494,7 +494,7 @@ class RpcCamera(Camera):
 
         # project from pixel to geographic / RPC coordinates, removing and replacing nans around
         # the .xy call (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1]) if np.size(z) == 1 else z.copy()
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
-- 
2.43.0


From 2acb8094528c61be36baaf910a431c14bd057107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:00 +0000
Subject: [PATCH 04/40] fix: default nodata in camera read and remap methods

With nodata=None (the default), the dtype object was used as a key into the
string keyed nodata dictionary, and FrameCamera.remap() passed None to
np.isnan(), raising KeyError and TypeError rather than using a dtype based
value as documented.
---
 orthority/camera.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 93c87f2..211b33c 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1098,6 +1098,8 @@ class FrameCamera(Camera):
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
+        if nodata is None:
+            nodata = common._nodata_vals[str(image.dtype)]
 
         # remove blurring with nodata pixels when necessary
         if (
@@ -1108,9 +1110,6 @@ class FrameCamera(Camera):
         ):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
-
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From 39ede1c9dd2a1c8ce31d1ea117c9e4f99893599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:55 +0000
Subject: [PATCH 05/40] fix: accept interpolation name strings in
 world_boundary()

interp is documented as str | Interp, but strings raised AttributeError.
---
 orthority/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 211b33c..e6cbb62 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -153,7 +153,7 @@ class Camera(ABC):
             # nan outside its bounds and for already masked / nan pixels)
             zsurf_ji = np.array(inv_transform * ray_xyz[:2]).astype('float32', copy=False)
             zsurf_z = np.full((zsurf_ji.shape[1],), dtype=z.dtype, fill_value=float('nan'))
-            cv2.remap(z, *zsurf_ji, interp.to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
+            cv2.remap(z, *zsurf_ji, Interp[interp].to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
 
             # store the first ray-z intersection point if it exists, otherwise the z_min point
             zsurf_min_xyz = ray_xyz[:, -1]
-- 
2.43.0


From 3a52b8708f3d2af53f8db55ce99aad21d4a95cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:01 +0000
Subject: [PATCH 06/40] fix: include DEM pixels around the ortho bounds so edge
 heights are interpolated

---
 orthority/ortho.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..639e463 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -165,10 +165,13 @@ class Ortho:
                 )
                 dem_win = dem_im.window(*dem_bounds)
                 try:
-                    dem_win = dem_full_win.intersection(dem_win)
+                    dem_full_win.intersection(dem_win)
                 except rio.errors.WindowError:
                     raise OrthorityError(f"Ortho for '{self._src_name}' lies outside the DEM.")
-                return common.expand_window_to_grid(dem_win)
+                # expand by the interpolation kernel radius to avoid extrapolating heights inside
+                # the ortho bounds
+                dem_win = common.expand_window_to_grid(dem_win, expand_pixels=(2, 2))
+                return dem_full_win.intersection(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
             zs = np.array([self._egm_minmax[0], self._z_max + self._egm_minmax[1]]) * z_scale
-- 
2.43.0


From 0756cd7842694d5ee3c695603ee1bed8fccb018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:15 +0000
Subject: [PATCH 07/40] fix: write the internal mask of band-by-band orthos for
 pixels valid in any band

---
 orthority/ortho.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 639e463..3fa96ce 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -355,7 +355,7 @@ class Ortho:
         init_xgrid: np.ndarray,
         init_ygrid: np.ndarray,
         interp: Interp,
-        write_mask: bool,
+        valid_mask: np.ndarray | None,
     ) -> None:
         """Thread safe method to map the source image to an ortho tile.  Returns the tile array
         and mask.
@@ -398,8 +398,12 @@ class Ortho:
         with self._write_lock:
             ortho_im.write(tile_array, indexes, window=tile_win)
 
-            if write_mask and (indexes == [1] or len(indexes) == ortho_im.count):
-                ortho_im.write_mask(~tile_mask, window=tile_win)
+            if valid_mask is not None:
+                # accumulate the valid mask over bands, and write it with the last band
+                tile_valid_mask = valid_mask[tile_win.toslices()]
+                tile_valid_mask |= ~tile_mask
+                if indexes[-1] == ortho_im.count:
+                    ortho_im.write_mask(tile_valid_mask, window=tile_win)
 
     def _remap(
         self,
@@ -439,6 +443,9 @@ class Ortho:
         tile_wins = [*common.block_windows(ortho_im)]
         progress.total = len(tile_wins) * len(index_list)
 
+        # create a mask for finding pixels that are valid in any band (when needed)
+        valid_mask = np.zeros(ortho_im.shape, dtype=bool) if write_mask else None
+
         # TODO: Memory increases ~linearly with number of threads, but does processing speed?
         #  Make number of threads configurable and place a limit on the default value
         with ThreadPoolExecutor(max_workers=os.cpu_count()) as executor:
@@ -469,7 +476,7 @@ class Ortho:
                         init_xgrid,
                         init_ygrid,
                         interp,
-                        write_mask,
+                        valid_mask,
                     )
                     for tile_win in tile_wins
                 ]
-- 
2.43.0


From 4093a276cf3138ce7068d6c1e9cfaddeb36b9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:04 +0000
Subject: [PATCH 08/40] fix: include terrain below the geoid minimum when
 finding the DEM window

---
 orthority/ortho.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 3fa96ce..feab642 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -79,7 +79,9 @@ class Ortho:
     # the WGS84 ellipsoid (meters)
     _egm_minmax = [-106.71, 82.28]
 
-    # Maximum possible ellipsoidal height i.e. approx. that of Everest (meters)
+    # Minimum and maximum possible terrain heights i.e. approx. those of the Dead Sea shore and Everest
+    # (meters)
+    _z_min = -450.0
     _z_max = 8850.0
 
     def __init__(
@@ -174,7 +176,8 @@ class Ortho:
                 return dem_full_win.intersection(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
-            zs = np.array([self._egm_minmax[0], self._z_max + self._egm_minmax[1]]) * z_scale
+            zs = [self._z_min + self._egm_minmax[0], self._z_max + self._egm_minmax[1]]
+            zs = np.array(zs) * z_scale
             dem_win = get_win_at_zs(zs)
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
-- 
2.43.0


From d1ce1aa710d0b93a4ff40034713b20efb05f1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:41 +0000
Subject: [PATCH 09/40] fix: scale the vertical datum offset from DEM to ortho
 CRS units

---
 orthority/ortho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index feab642..00eb5c0 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -260,8 +260,9 @@ class Ortho:
                 f"Ortho resolution for '{self._src_name}' is larger than the ortho bounds."
             )
 
-        # find z scaling from dem to world / ortho crs to set MULT_FACTOR_VERTICAL_SHIFT
-        # (rasterio does not set it automatically, as GDAL does)
+        # find z scaling from dem to world / ortho crs to set MULT_FACTOR_VERTICAL_SHIFT and
+        # MULT_FACTOR_VERTICAL_SHIFT_PIPELINE (rasterio does not set them automatically, as GDAL
+        # does)
         dem_ji = (np.array(self._dem_array.shape[::-1]) - 1) / 2
         dem_xy = self._dem_transform * dem_ji
         world_zs = []
@@ -291,6 +292,7 @@ class Ortho:
             init_dest_nodata=True,
             apply_vertical_shift=True,
             mult_factor_vertical_shift=z_scale,
+            mult_factor_vertical_shift_pipeline=z_scale,
             num_threads=os.cpu_count(),
         )
         return dem_array.squeeze(), dem_transform
-- 
2.43.0


From d83e070dfc908c7e33b7cbbd172cabf9f40d06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:43 +0000
Subject: [PATCH 10/40] fix: raise an OrthorityError when the DEM is nodata
 over the ortho bounds

---
 orthority/ortho.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 00eb5c0..97ca271 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -126,6 +126,11 @@ class Ortho:
                     )
         return crs
 
+    def _check_dem_valid(self, dem_array: np.ndarray) -> None:
+        """Raise an error if there are no valid pixels in ``dem_array``."""
+        if np.ma.masked_invalid(dem_array).count() == 0:
+            raise OrthorityError(f"Ortho for '{self._src_name}' lies outside the valid DEM area.")
+
     def _get_init_dem(
         self, dem_file: str | PathLike | rio.DatasetReader, dem_band: int
     ) -> tuple[np.ndarray, rio.Affine, CRS]:
@@ -185,6 +190,7 @@ class Ortho:
 
             # reduce the dem window to contain the ortho bounds at min & max dem altitude,
             # accounting for dem-ortho vertical datum offset & z unit scaling
+            self._check_dem_valid(dem_array)
             zs = []
             for index in [dem_array.argmin(), dem_array.argmax()]:
                 ij = np.unravel_index(index, dem_array.shape)
@@ -204,6 +210,7 @@ class Ortho:
             dem_array = dem_array[
                 dem_ij_start[0] : dem_ij_stop[0], dem_ij_start[1] : dem_ij_stop[1]
             ]
+            self._check_dem_valid(dem_array)
             dem_transform = dem_im.window_transform(dem_win)
 
             # cast dem_array to float32 and set nodata to nan (to persist masking through cv2.remap)
@@ -310,6 +317,7 @@ class Ortho:
         corresponding transform.
         """
         # find ortho boundary polygon
+        self._check_dem_valid(dem_array)
         poly_xy = self._camera.world_boundary(
             dem_array,
             transform=dem_transform,
-- 
2.43.0


From ad1aa74e1db14f1fbf55a5ffadf5a924a44d63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:41 +0000
Subject: [PATCH 11/40] fix: pan-sharpening a single band with a negative pan
 weight

---
 orthority/pan_sharp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..d8923e4 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -323,7 +323,7 @@ class PanSharpen:
             if weights is None:
                 # find the LS solution for the weights as described in section 2.2 & eq 6
                 weights = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:].reshape(-1, 1), rcond=None)[0]
-                weights = weights.squeeze()
+                weights = weights.ravel()
 
                 # redo the LS without negatively weighted bands if there are any
                 if np.any(weights < 0):
@@ -335,7 +335,7 @@ class PanSharpen:
                     ms_indexes_ = np.where(weights > 0)[0] + 1
                     ms_cov = cov[ms_indexes_, :][:, ms_indexes_]
                     pan_ms_cov = cov[0, ms_indexes_].reshape(-1, 1)
-                    weights_ = np.linalg.lstsq(ms_cov, pan_ms_cov, rcond=None)[0].squeeze()
+                    weights_ = np.linalg.lstsq(ms_cov, pan_ms_cov, rcond=None)[0].ravel()
 
                     # use the updated weights if they are positive, and set negative weights to 0
                     if np.all(weights_ >= 0):
-- 
2.43.0


From 01f5cc78a684c5bc76efeb9fd5a5c135995ee46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:41 +0000
Subject: [PATCH 12/40] fix: raise an error for pan-sharpening weights that
 cannot be normalised

---
 orthority/pan_sharp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index d8923e4..428e818 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -222,6 +222,8 @@ class PanSharpen:
                 )
             if np.any(np.array(weights) < 0):
                 raise OrthorityError('Weight values should greater than or equal to 0.')
+            if not np.any(np.array(weights) > 0):
+                raise OrthorityError('At least one weight value should be greater than 0.')
 
         return ms_indexes, weights
 
@@ -353,6 +355,8 @@ class PanSharpen:
                     category=OrthorityWarning,
                 )
                 weights = weights.clip(0, None)
+            if not np.any(weights > 0):
+                raise OrthorityError('Multispectral to pan weights could not be estimated.')
             return weights / weights.sum()
 
         def get_gs_coeffs(cov: np.ndarray, weights: np.ndarray) -> list[np.ndarray]:
-- 
2.43.0


From c6bbb8b2589165fa6fd883ba57152d33ac06be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:44 +0000
Subject: [PATCH 13/40] fix: pan-sharpening with zero weights for trailing
 multispectral bands

---
 orthority/pan_sharp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 428e818..14dba08 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -377,8 +377,9 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by (nearly) zero when a component is linearly
+                    # dependent on its predecessors e.g. with zeros at the end of the weight vector
+                    coeffs[k][l] = num / den if l == 0 or den > 1e-10 * cov[l - 1, l - 1] else 0
 
             return coeffs
 
-- 
2.43.0


From d7b5a74ee107c637cd3c31bf78bf5f3422e6cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:07 +0000
Subject: [PATCH 14/40] fix: limit pan-sharpened image to the source pan image
 extents

---
 orthority/pan_sharp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 14dba08..8fb1209 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -133,12 +133,14 @@ class PanSharpen:
                     raise OrthorityError('Pan and multispectral bounds do not overlap.')
                 pan_win = ms_win_.intersection(pan_ds.window(*pan_ds.bounds))
                 pan_win = common.expand_window_to_grid(pan_win)
+                pan_win = pan_win.intersection(Window(0, 0, pan_ds.width, pan_ds.height))
 
                 # find shared bounds MS window
                 pan_bounds_ = transform_bounds(pan_ds.crs, ms_ds.crs, *pan_ds.bounds)
                 pan_win_ = ms_ds.window(*pan_bounds_)
                 ms_win = pan_win_.intersection(ms_ds.window(*ms_ds.bounds))
                 ms_win = common.expand_window_to_grid(ms_win)
+                ms_win = ms_win.intersection(Window(0, 0, ms_ds.width, ms_ds.height))
 
             # test resolutions
             pan_res = np.abs((pan_src_transform[0], pan_src_transform[4]))
-- 
2.43.0


From 630677562ec276570c4ef3ec09fc88e32a3a6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:57 +0000
Subject: [PATCH 15/40] fix: compare pan and multispectral resolutions in the
 same units when their CRSs differ

---
 orthority/pan_sharp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 8fb1209..4ef039e 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -142,9 +142,11 @@ class PanSharpen:
                 ms_win = common.expand_window_to_grid(ms_win)
                 ms_win = ms_win.intersection(Window(0, 0, ms_ds.width, ms_ds.height))
 
-            # test resolutions
+            # test resolutions (in pan CRS units)
             pan_res = np.abs((pan_src_transform[0], pan_src_transform[4]))
             ms_res = np.abs((ms_src_transform[0], ms_src_transform[4]))
+            if pan_ds.crs and ms_ds.crs and pan_ds.crs != ms_ds.crs:
+                ms_res = np.abs(np.subtract(ms_bounds_[2:], ms_bounds_[:2])) / ms_ds.shape[::-1]
             if np.any(pan_res > ms_res):
                 raise OrthorityError(
                     f'Pan resolution: {tuple(pan_res.tolist())} exceeds multispectral resolution: '
-- 
2.43.0


From aea77df6aaf9869d4b1f8a7012f48f1b442a2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:53 +0000
Subject: [PATCH 16/40] fix: do not read Orthority interior parameters with a
 'camera' ID as the legacy config.yaml format

---
 orthority/param_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..2e85e4b 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -250,8 +250,10 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         int_param.update(**yaml_param)
         return int_param
 
-    # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    # warn if in original simple-ortho format (and not an Orthority file with a 'camera' camera ID)
+    if 'camera' in yaml_dict and not all(
+        isinstance(val, dict) and 'type' in val and 'name' not in val for val in yaml_dict.values()
+    ):
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
-- 
2.43.0


From 4d8e82495c3ac875a36dc5d2ee2de0475fa2ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:48 +0000
Subject: [PATCH 17/40] fix: make the documented optional 'id' and 'info' GCP
 properties optional in read_oty_gcps

---
 orthority/param_io.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 2e85e4b..c5b1b21 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -542,7 +542,7 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         features=[
             dict(
                 type='Feature',
-                properties=dict(ji=[(int, float)] * 2, filename=str, id=None, info=None),
+                properties=dict(ji=[(int, float)] * 2, filename=str),
                 geometry=dict(type='Point', coordinates=[(int, float)] * 3),
             )
         ],
@@ -559,7 +559,12 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         prop_dict = feat_dict['properties']
         filename = prop_dict['filename']
         xyz = tuple(feat_dict['geometry']['coordinates'])
-        gcp = dict(ji=tuple(prop_dict['ji']), xyz=xyz, id=prop_dict['id'], info=prop_dict['info'])
+        gcp = dict(
+            ji=tuple(prop_dict['ji']),
+            xyz=xyz,
+            id=prop_dict.get('id'),
+            info=prop_dict.get('info'),
+        )
 
         if filename not in gcp_dict:
             gcp_dict[filename] = [gcp]
-- 
2.43.0


From 3427b5d95f4d39c5ec8c2dc0a953734110e970d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:42 +0000
Subject: [PATCH 18/40] fix: avoid NaN or wrong omega, phi, kappa angles for
 horizontal cameras at phi = +-90 degrees

---
 orthority/param_io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index c5b1b21..903b095 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -736,9 +736,15 @@ def _opk_to_rotation(opk: tuple[float, float, float]) -> np.ndarray:
 def _rotation_to_opk(R: np.ndarray) -> tuple[float, float, float]:
     """Convert the given rotation matrix to the (omega, phi, kappa) angles in radians."""
     # see https://s3.amazonaws.com/mics.pix4d.com/KB/documents/Pix4D_Yaw_Pitch_Roll_Omega_to_Phi_Kappa_angles_and_conversion.pdf
-    omega = float(np.arctan2(-R[1, 2], R[2, 2]))
-    phi = float(np.arcsin(R[0, 2]))
-    kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    cos_phi = np.hypot(R[0, 0], R[0, 1])
+    phi = float(np.arctan2(R[0, 2], cos_phi))
+    if cos_phi > 1e-8:
+        omega = float(np.arctan2(-R[1, 2], R[2, 2]))
+        kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    else:
+        # omega & kappa share an axis (phi = +-90 deg), so only their combination can be found
+        omega = float(np.arctan2(R[2, 1], R[1, 1]))
+        kappa = 0.0
     return omega, phi, kappa
 
 
-- 
2.43.0


From 9e5d2cc585f2f39da0e174440bb39eff585c4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:49 +0000
Subject: [PATCH 19/40] fix: find the automatic UTM CRS of positions on both
 sides of the antimeridian

---
 orthority/common.py   | 9 +++++++++
 orthority/param_io.py | 5 ++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..f8a7814 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -153,6 +153,15 @@ def profiler():
         yield
 
 
+def mean_latlon(latlons: Sequence[tuple[float, float]]) -> tuple[float, float]:
+    """Return the mean of the given (lat, lon) coordinates in degrees, allowing for longitudes on
+    both sides of the antimeridian.
+    """
+    lats, lons = np.array(latlons).T
+    lons = lons[0] + (lons - lons[0] + 180) % 360 - 180
+    return float(lats.mean()), float(lons.mean())
+
+
 def utm_crs_from_latlon(lat: float, lon: float) -> CRS:
     """Return a 2D rasterio UTM CRS for the given (lat, lon) coordinates in degrees."""
     # adapted from https://gis.stackexchange.com/questions/269518/auto-select-suitable-utm-zone-based-on-grid-intersection
diff --git a/orthority/param_io.py b/orthority/param_io.py
index 903b095..2c0331b 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1085,8 +1085,7 @@ class CsvReader(FrameReader):
             latlon = (row['latitude'], row['longitude'])
             latlons.append(latlon)
 
-        mean_latlon = np.array(latlons).mean(axis=0)
-        return common.utm_crs_from_latlon(*mean_latlon)
+        return common.utm_crs_from_latlon(*common.mean_latlon(latlons))
 
     def _get_crs(self) -> CRS:
         """Read / auto-determine and validate a CRS when no user CRS was supplied."""
@@ -1354,7 +1353,7 @@ class ExifReader(FrameReader):
                 raise ParamError(f"No latitude, longitude & altitude tags in '{e.filename}'.")
             llas.append(e.lla)
 
-        mean_latlon = np.array(llas)[:, :2].mean(axis=0)
+        mean_latlon = common.mean_latlon([lla[:2] for lla in llas])
         return common.utm_crs_from_latlon(*mean_latlon)
         # return CRS.from_proj4(f'+proj=ortho +lat_0={mean_latlon[0]} +lon_0={mean_latlon[1]}'
 
-- 
2.43.0


From 022be1493c3bcf572fa447bec5ead18805c84b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:08 +0000
Subject: [PATCH 20/40] fix: read EXIF tags of TIFF images that have other
 (non-EXIF) tags

---
 orthority/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/exif.py b/orthority/exif.py
index 6792875..6336a12 100644
--- a/orthority/exif.py
+++ b/orthority/exif.py
@@ -116,7 +116,8 @@ class Exif:
             # NB: avoid calling ds.tag_namespaces() which reads more (all?) of the dataset
             # compared to ds.tags() with known ns=
             exif_dict = ds.tags()
-            exif_dict = ds.tags(ns='EXIF') if len(exif_dict) == 0 else exif_dict
+            if not any(key.startswith('EXIF_') for key in exif_dict):
+                exif_dict = ds.tags(ns='EXIF')
             self._im_size = ds.shape[::-1]
 
             xmp_dict = ds.tags(ns='xml:XMP')
-- 
2.43.0


From ac115ad1bbe7e2f7cd0364c409c51a371cd505e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:11 +0000
Subject: [PATCH 21/40] fix: do not share interior parameters between images
 with the same EXIF camera ID but different interior parameters

---
 orthority/param_io.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 2c0331b..b37f7e9 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1357,20 +1357,36 @@ class ExifReader(FrameReader):
         return common.utm_crs_from_latlon(*mean_latlon)
         # return CRS.from_proj4(f'+proj=ortho +lat_0={mean_latlon[0]} +lon_0={mean_latlon[1]}'
 
-    def read_int_param(self) -> dict[str, dict[str, Any]]:
-        """Read interior camera parameters."""
+    def _read_int_param(self) -> tuple[dict[str, dict[str, Any]], dict[str, str]]:
+        """Return interior parameters, and camera IDs for each image.  Camera IDs are numbered when
+        they would otherwise be shared by images with different interior parameters.
+        """
         int_param_dict = {}
+        cam_ids = {}
         for filename, exif in self._exif_dict.items():
-            int_param = _read_exif_int_param(exif)
-            int_param_dict.update(**int_param)
-        return int_param_dict
+            [(exif_id, int_param)] = _read_exif_int_param(exif).items()
+            cam_id, num = exif_id, 1
+            while int_param_dict.setdefault(cam_id, int_param) != int_param:
+                num += 1
+                cam_id = f'{exif_id} {num}'
+            cam_ids[filename] = cam_id
+        return int_param_dict, cam_ids
+
+    def read_int_param(self) -> dict[str, dict[str, Any]]:
+        """Read interior camera parameters."""
+        return self._read_int_param()[0]
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
+        try:
+            _, cam_ids = self._read_int_param()
+        except ParamError:
+            cam_ids = {}
+
         ext_param_dict = {}
         for filename, exif in self._exif_dict.items():
-            ext_param_dict.update(
-                **_read_exif_ext_param(exif, crs=self._crs, lla_crs=self._lla_crs)
-            )
+            ext_param = _read_exif_ext_param(exif, crs=self._crs, lla_crs=self._lla_crs)[filename]
+            ext_param['camera'] = cam_ids.get(filename, ext_param['camera'])
+            ext_param_dict[filename] = ext_param
         return ext_param_dict
 
 
-- 
2.43.0


From a8a4b09ff8ec4218108b4e7ca41a8f99021b201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:11 +0000
Subject: [PATCH 22/40] fix: do not change the io_kwargs dictionary given to
 FrameCameras.from_images

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..fa443b7 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -135,7 +135,7 @@ class FrameCameras(Cameras):
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-        io_kwargs.update(crs=reader.crs)
+        io_kwargs = dict(io_kwargs, crs=reader.crs)
         return cls(int_param_dict, ext_param_dict, io_kwargs=io_kwargs, cam_kwargs=cam_kwargs)
 
     @property
-- 
2.43.0


From c9fe647d8635a7bcae77731af122b48760c2a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 23/40] fix: do not change the cameras FrameCameras.get has
 already returned when getting another

---
 orthority/factory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index fa443b7..f3d3cdd 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 
 import warnings
 from abc import ABC, abstractmethod
+from copy import copy
 from os import PathLike
 from pathlib import Path
 from typing import IO, Sequence
@@ -228,10 +229,11 @@ class FrameCameras(Cameras):
         if cam_id not in self._cameras:
             self._cameras[cam_id] = create_camera(**int_param, **self._cam_kwargs)
 
-        # update exterior params
-        self._cameras[cam_id].update(xyz=ext_param['xyz'], opk=ext_param['opk'])
+        # update exterior params of a copy, so that cameras returned for other images don't change
+        camera = copy(self._cameras[cam_id])
+        camera.update(xyz=ext_param['xyz'], opk=ext_param['opk'])
 
-        return self._cameras[cam_id]
+        return camera
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
         # write interior params
-- 
2.43.0


From 0ce5066f056301779c380de43bf7e3f5e54704b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:56 +0000
Subject: [PATCH 24/40] fix: write exterior parameters without a camera ID, as
 supported by FrameCameras

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index b37f7e9..4c9f5cc 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -640,7 +640,7 @@ def write_ext_param(
         lla = transform(crs, lla_crs, [xyz[0]], [xyz[1]], [xyz[2]])
         lla = [lla[0][0], lla[1][0], lla[2][0]]  # (lon, lat) order for GeoJSON point
         props_dict = dict(
-            filename=src_file, camera=ext_param['camera'], xyz=xyz, opk=ext_param['opk']
+            filename=src_file, camera=ext_param.get('camera'), xyz=xyz, opk=ext_param['opk']
         )
         geom_dict = dict(type='Point', coordinates=list(lla))
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
-- 
2.43.0


From f6beb49ce68e297b1809bbbfdb5829d3cd865148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:18 +0000
Subject: [PATCH 25/40] fix: do not change the RPC parameter dictionary given
 to RpcCameras when refining

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index f3d3cdd..a884bef 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -271,7 +271,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy so that refine() does not change rpc_param
+            self._rpc_param_dict = {k: v.copy() for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From a855cda2a22c076ad3ce79bc11aec71125034ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:11 +0000
Subject: [PATCH 26/40] fix: return the refined RPC camera from RpcCameras.get
 for image names that differ from the parameter key

---
 orthority/factory.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index a884bef..fba78b4 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -367,16 +367,16 @@ class RpcCameras(Cameras):
     def get(self, filename: str | PathLike | OpenFile | rio.DatasetReader) -> RpcCamera:
         # get RPC params for filename
         filename = Path(common.get_filename(filename))
-        rpc_param = self._rpc_param_dict.get(
-            filename.name, self._rpc_param_dict.get(filename.stem, None)
-        )
+        key = filename.name if filename.name in self._rpc_param_dict else filename.stem
+        rpc_param = self._rpc_param_dict.get(key, None)
         if not rpc_param:
             raise ParamError(f"Could not find RPC parameters for '{filename.name}'.")
 
-        if filename.name not in self._cameras:
-            self._cameras[filename.name] = create_camera(**rpc_param, **self._cam_kwargs)
+        # create camera on first use (with the RPC parameter key so refine() can force recreation)
+        if key not in self._cameras:
+            self._cameras[key] = create_camera(**rpc_param, **self._cam_kwargs)
 
-        return self._cameras[filename.name]
+        return self._cameras[key]
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
         """
-- 
2.43.0


From 97a719ef7bfbfeb9b455f4de01aa2862ca27caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:28 +0000
Subject: [PATCH 27/40] fix: undistort GCP pixels with the camera model when
 fitting exterior parameters

fit_frame_exterior() passed fisheye distortion coefficients to cv2.solvePnP(), which
applies them as Brown-Conrady coefficients, giving a wrong pose for fisheye cameras.
---
 orthority/fit.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..5524006 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -30,7 +30,7 @@ from rasterio.rpc import RPC
 from rasterio.warp import transform
 
 from orthority import param_io
-from orthority.camera import FrameCamera, RpcCamera
+from orthority.camera import create_camera, RpcCamera
 from orthority.enums import CameraType, RpcRefine
 from orthority.errors import OrthorityWarning
 
@@ -333,19 +333,8 @@ def fit_frame_exterior(
     if min_gcps < 3:
         raise ValueError('At least three GCPs are needed per image.')
 
-    # get initial intrinsic matrix
-    K = FrameCamera._get_intrinsic(
-        int_param['im_size'],
-        int_param['focal_len'],
-        int_param.get('sensor_size'),
-        int_param.get('cx', 0.0),
-        int_param.get('cy', 0.0),
-    )
-
-    # get initial distortion coefficients
-    dist_names = _frame_dist_params[int_param['cam_type']]
-    dist_param = [int_param.get(dn, 0.0) for dn in dist_names]
-    dist_param = np.array(dist_param) if dist_param else None
+    # create a camera for transforming GCP pixel coordinates to (undistorted) camera coordinates
+    camera = create_camera(**int_param)
 
     # convert GCPs to OpenCV compatible lists of arrays
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
@@ -353,7 +342,8 @@ def fit_frame_exterior(
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-        _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
+        xy = np.ascontiguousarray(camera._pixel_to_camera(ji.T)[:2].T)
+        _, r, t = cv2.solvePnP(xyz, xy, np.eye(3), None, flags=cv2.SOLVEPNP_SQPNP)
         xyz_, opk = param_io._cv_ext_to_oty_ext(t, r, ref_xyz=ref_xyz)
         ext_param_dict[filename] = dict(xyz=xyz_, opk=opk, camera=cam_id)
 
-- 
2.43.0


From d784efa377e321f423fc516a8fdfb3c74859c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:20 +0000
Subject: [PATCH 28/40] fix: use each source image's own CRS when no other CRS
 is available

The CRS of the first image was used for all images that followed in the batch.
---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..a7a3dc8 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                im_crs = crs or src_im.crs
+                if not im_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, im_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From 30ce91de301bf9b51958653ffc188edfd53fd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:20 +0000
Subject: [PATCH 29/40] fix: read CRS from WKT strings longer than the maximum
 file name

Path.exists() raised 'File name too long' for these, so that --crs was rejected.
---
 orthority/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index a7a3dc8..caea4ff 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 import argparse
 import csv
 import logging
+import os
 import re
 import warnings
 from functools import partial
@@ -146,7 +147,9 @@ def _read_crs(crs: str):
         with common.suppress_no_georef(), common.OpenRaster(crs, 'r') as im:
             crs = im.crs
     else:
-        if crs_path.exists() or urlparse(crs).scheme in fsspec.available_protocols():
+        # (os.path.exists() is False for strings that are too long to be a path, where Path.exists()
+        # raises an error)
+        if os.path.exists(crs) or urlparse(crs).scheme in fsspec.available_protocols():
             # read string from text file path / valid URI
             with common.Open(crs, 'rt') as f:
                 crs = f.read()
-- 
2.43.0


From cc48f0e1c7698042044f33e393b49299790f63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:20 +0000
Subject: [PATCH 30/40] fix: default legacy ortho directory to that of each
 source image

The directory of the first image was used for all images that followed.
---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index caea4ff..bb19517 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1343,8 +1343,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                im_ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
+                ortho_filename = Path(im_ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0


From 2f23546e53aed496daebf905c1b135661aeccd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:20 +0000
Subject: [PATCH 31/40] fix: write a world CRS that is equal to the CRS of the
 exterior parameters

CRS.to_string() gives an authority code for approximate matches, so that reading the
file could give world coordinates in a CRS with a different datum.
---
 orthority/param_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 4c9f5cc..e2e5d31 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -646,7 +646,11 @@ def write_ext_param(
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
         feat_list.append(feat_dict)
 
-    json_dict = dict(type='FeatureCollection', world_crs=crs.to_string(), features=feat_list)
+    # to_string() can be an authority code that only approximates the CRS (e.g. with another datum)
+    crs_str = crs.to_string()
+    if CRS.from_string(crs_str) != crs:
+        crs_str = crs.to_wkt()
+    json_dict = dict(type='FeatureCollection', world_crs=crs_str, features=feat_list)
 
     with common.Open(file, 'wt', overwrite=overwrite) as f:
         json.dump(json_dict, f, indent=4)
-- 
2.43.0


From 75862b9066bde1e837e18f49f234ee59e78000fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:16 +0000
Subject: [PATCH 32/40] fix: raise ParamError for malformed Orthority interior
 parameter files

Files that are empty, not a dictionary, or have values of the wrong type or length raised
other exceptions, or were accepted.
---
 orthority/param_io.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index e2e5d31..bafccee 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -68,6 +68,22 @@ _default_lla_crs = CRS.from_epsg(4979)
 """Default CRS for geographic camera coordinates."""
 
 
+def _validate_int_param(int_param: dict[str, Any], cam_id: str) -> None:
+    """Validate the value types of interior parameters for a single camera."""
+    for key, value in int_param.items():
+        if key == 'cam_type':
+            continue
+        is_num = isinstance(value, (int, float))
+        is_pair = (
+            isinstance(value, (list, tuple))
+            and len(value) == 2
+            and all(isinstance(item, (int, float)) for item in value)
+        )
+        valid = is_pair if key in ['im_size', 'sensor_size'] else is_num
+        if not (valid or (key == 'focal_len' and is_pair)):
+            raise ParamError(f"Invalid '{key}' value: '{value}' for camera '{cam_id}'.")
+
+
 def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
     """Read interior parameters from the ``cameras`` section of an OpenDroneMap / OpenSfM JSON
     dictionary.
@@ -227,12 +243,13 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # convert type -> cam_type
-        cam_type = yaml_param.pop('type').lower()
+        cam_type = str(yaml_param.pop('type')).lower()
         if cam_type not in CameraType.__members__ or cam_type == 'rpc':
             raise ParamError(f"Unsupported frame camera type '{cam_type}'.")
         int_param = dict(cam_type=CameraType(cam_type))
 
-        int_param['im_size'] = tuple(yaml_param.pop('im_size'))
+        im_size = yaml_param.pop('im_size')
+        int_param['im_size'] = tuple(im_size) if isinstance(im_size, list) else im_size
 
         # pop known legacy keys not supported by Camera.__init__
         yaml_param.pop('name', None)
@@ -241,15 +258,23 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         focal_len = yaml_param.pop('focal_len')
         int_param['focal_len'] = tuple(focal_len) if isinstance(focal_len, list) else focal_len
         if 'sensor_size' in yaml_param:
-            int_param['sensor_size'] = tuple(yaml_param.pop('sensor_size'))
+            sensor_size = yaml_param.pop('sensor_size')
+            int_param['sensor_size'] = (
+                tuple(sensor_size) if isinstance(sensor_size, list) else sensor_size
+            )
 
         # validate any remaining distortion params, update param_dict & return
         err_keys = set(yaml_param.keys()).difference(_opt_frame_schema[int_param['cam_type']])
         if len(err_keys) > 0:
             raise ParamError(f"Unsupported parameter(s) {err_keys} for camera '{cam_id}'.")
         int_param.update(**yaml_param)
+        _validate_int_param(int_param, cam_id)
         return int_param
 
+    # validate file contents
+    if not isinstance(yaml_dict, dict) or len(yaml_dict) == 0:
+        raise ParamError(f"Could not parse '{filename}': it should contain a dictionary.")
+
     # warn if in original simple-ortho format (and not an Orthority file with a 'camera' camera ID)
     if 'camera' in yaml_dict and not all(
         isinstance(val, dict) and 'type' in val and 'name' not in val for val in yaml_dict.values()
@@ -260,11 +285,15 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
             category=FutureWarning,
         )
         yaml_dict = yaml_dict['camera']
+        if not isinstance(yaml_dict, dict) or len(yaml_dict) == 0:
+            raise ParamError(f"Could not parse '{filename}': 'camera' should be a dictionary.")
 
     # convert to nested dict if in flat / simple-ortho format
     first_value = next(iter(yaml_dict.values()))
     if not isinstance(first_value, dict):
         cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
+        if not isinstance(cam_id, str):
+            raise ParamError(f"Could not parse '{filename}': 'name' should be a string.")
         yaml_dict = {cam_id: yaml_dict}
 
     # validate root dict
-- 
2.43.0


From 582d842579cd50ef90be421158608563ae7a23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:16 +0000
Subject: [PATCH 33/40] fix: raise ParamError for malformed OpenSfM / ODM
 interior parameter files

Values of the wrong type raised other exceptions, or were accepted.
---
 orthority/param_io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index bafccee..1a42d35 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -97,7 +97,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = str(json_param.pop('projection_type')).lower()
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
         except ValueError:
@@ -127,6 +127,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
         if len(err_keys) > 0:
             raise ParamError(f"Unsupported parameter(s) {err_keys} for camera '{cam_id}'.")
         int_param.update(**json_param)
+        _validate_int_param(int_param, cam_id)
         return int_param
 
     # validate root dict
@@ -333,7 +334,12 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
+    if (
+        isinstance(json_dict, list)
+        and len(json_dict) == 1
+        and isinstance(json_dict[0], dict)
+        and 'cameras' in json_dict[0]
+    ):
         json_dict = json_dict[0]['cameras']
 
     try:
-- 
2.43.0


From 902f4dbc89c2f5538a8818ff018f4b61bc273bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:31 +0000
Subject: [PATCH 34/40] fix: raise ParamError for malformed CSV exterior
 parameter files

---
 orthority/param_io.py | 51 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 1a42d35..e0eca3c 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1034,14 +1034,14 @@ class CsvReader(FrameReader):
 
         # read file once into a buffer (newline=None works around some delimiter detection problems
         # with newline='')
-        with common.Open(self._ofile or file, 'rt', newline=None) as f:
-            self._buffer = StringIO(f.read())
-
         try:
+            with common.Open(self._ofile or file, 'rt', newline=None) as f:
+                self._buffer = StringIO(f.read())
+
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
                 self._buffer, fieldnames=fieldnames, dialect=dialect
             )
-        except ParamError as ex:
+        except (ParamError, csv.Error, UnicodeDecodeError) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{common.get_filename(file)}': {ex!s}") from ex
 
@@ -1110,19 +1110,33 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
+    def _read_rows(self) -> list[dict[str, Any]]:
+        """Read the CSV rows, and convert their values to field types."""
+        rows = []
+        self._buffer.seek(0)
+        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
+        try:
+            if self._has_header:  # read header
+                _ = next(reader, None)
+
+            for row in reader:
+                if not row['filename']:
+                    raise ValueError("'filename' value is missing.")
+                row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+                rows.append(row)
+        except (csv.Error, ValueError, TypeError) as ex:
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not parse '{filename}' line {reader.line_num}: {ex!s}") from ex
+        return rows
+
     def _find_lla_rpy_crs(self) -> CRS:
         """Return a UTM CRS covering the mean of the camera positions in a
         :attr:`~CsvFormat.lla_rpy` format file.
         """
-        latlons = []
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-        if self._has_header:
-            _ = next(iter(reader))
-        for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
-            latlon = (row['latitude'], row['longitude'])
-            latlons.append(latlon)
+        latlons = [(row['latitude'], row['longitude']) for row in self._read_rows()]
+        if not np.isfinite(latlons).all() or len(latlons) == 0:
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not find a UTM CRS for the positions in '{filename}'.")
 
         return common.utm_crs_from_latlon(*common.mean_latlon(latlons))
 
@@ -1146,7 +1160,7 @@ class CsvReader(FrameReader):
                     logger.debug(f"Using '{prj_name}' CRS: '{crs.to_string()}'")
                 except FileNotFoundError as ex:
                     logger.debug(f"Could not open '{prj_name}': {ex!s}")
-                except RioCrsError as ex:
+                except (RioCrsError, UnicodeDecodeError) as ex:
                     raise ParamError(f"Could not interpret CRS in '{prj_name}': {ex!s}")
             else:
                 # a file object was passed to __init__ so the CSV file path / URI is unknown and a
@@ -1193,15 +1207,8 @@ class CsvReader(FrameReader):
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
         ext_param_dict = {}
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-
-        if self._has_header:  # read header
-            _ = next(iter(reader))
-
-        for row in reader:
+        for row in self._read_rows():
             filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From f48afb3e377e92f5d50fe9d8bab56267a732a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:31 +0000
Subject: [PATCH 35/40] fix: read interior parameters with exteriors only when
 they are in the same file

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index fba78b4..a71e8cd 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -193,7 +193,8 @@ class FrameCameras(Cameras):
             crs = reader.crs
 
             # read interior params if not read already
-            int_param_dict = int_param_dict or reader.read_int_param()
+            if int_param_dict is None:
+                int_param_dict = reader.read_int_param()
         else:
             ext_param_dict = ext_param
 
-- 
2.43.0


From 4193f60764a64e9d0108530322b65de79539f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:39 +0000
Subject: [PATCH 36/40] fix: reject list values of OpenSfM / ODM focal lengths

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index e0eca3c..2f03114 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -75,7 +75,7 @@ def _validate_int_param(int_param: dict[str, Any], cam_id: str) -> None:
             continue
         is_num = isinstance(value, (int, float))
         is_pair = (
-            isinstance(value, (list, tuple))
+            isinstance(value, tuple)
             and len(value) == 2
             and all(isinstance(item, (int, float)) for item in value)
         )
-- 
2.43.0


From c5843dc1f3cee17c4b00a71a8e42f89c480a794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 37/40] fix: raise ParamError for camera positions that cannot
 be projected

---
 orthority/param_io.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 2f03114..a7d6239 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1209,7 +1209,12 @@ class CsvReader(FrameReader):
         ext_param_dict = {}
         for row in self._read_rows():
             filename = Path(row['filename']).name
-            xyz, opk = self._convert(row, radians=self._radians)
+            try:
+                xyz, opk = self._convert(row, radians=self._radians)
+            except Exception as ex:
+                raise ParamError(
+                    f"Could not convert position & orientation of '{filename}': {ex!s}"
+                ) from ex
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
         return ext_param_dict
@@ -1280,6 +1285,10 @@ class OsfmReader(FrameReader):
         except (ValueError, TypeError, KeyError) as ex:
             raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
 
+        ref_lla = [json_data[0]['reference_lla'][k] for k in schema[0]['reference_lla']]
+        if not np.isfinite(ref_lla).all() or abs(ref_lla[0]) > 90:
+            raise ParamError(f"Could not parse '{filename}': invalid 'reference_lla' coordinates.")
+
         # keep root schema keys and delete the rest
         json_dict = {k: json_data[0][k] for k in schema[0].keys()}
         del json_data
-- 
2.43.0


From d1e5974d486796d1d1469802e6ab612cb4614168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:35 +0000
Subject: [PATCH 38/40] fix: overwrite image files that cannot be read

---
 orthority/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index f8a7814..582747b 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -316,13 +316,19 @@ class OpenRaster:
 
             # TODO: delete sidecar files if overwriting (note that DatasetReader has a files
             #  attribute that lists associated files)
-            # TODO: if a file is partially written (e.g. because of an error), rasterio fails when
-            #  overwriting it
             if not overwrite and 'w' in mode and ofile.fs.exists(ofile.path):
                 raise FileExistsError(f"File exists: '{ofile.path}'")
 
             if isinstance(ofile.fs, (LocalFileSystem, HTTPFileSystem)):
                 # use GDAL internal file system
+                if mode == 'w' and ofile.fs.exists(ofile.path):
+                    # remove an existing file that rasterio can't read (e.g. because it was
+                    # partially written), as it can't be overwritten by rasterio
+                    try:
+                        with rio.open(ofile.path):
+                            pass
+                    except RasterioIOError:
+                        ofile.fs.rm_file(ofile.path)
                 try:
                     self._dataset = self._exit_stack.enter_context(
                         rio.open(ofile.path, mode, **kwargs)
-- 
2.43.0


From 59e0e32f5d52667b5c1494ebb2a670269931dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:42 +0000
Subject: [PATCH 39/40] fix: validate the ortho interpolation method before
 creating the ortho file

---
 orthority/ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 97ca271..c3a9421 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -610,7 +610,7 @@ class Ortho:
                 )
 
             # get dem array covering ortho extents in world / ortho crs and ortho resolution
-            dem_interp = Interp(dem_interp)
+            interp, dem_interp = Interp(interp), Interp(dem_interp)
             dem_array, dem_transform = self._reproject_dem(dem_interp, resolution)
             # TODO: Don't mask dem if camera is pinhole or frame with distort=False. Or make dem
             #  masking an option which defaults to not masking with pinhole / frame camera w
@@ -641,7 +641,7 @@ class Ortho:
                 src_im,
                 ortho_im,
                 dem_array,
-                interp=Interp(interp),
+                interp=interp,
                 per_band=per_band,
                 write_mask=write_mask,
                 progress=progress,
-- 
2.43.0


From 5b98a261f4bfcc35c7cbfc5971897728bc3c8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:43 +0000
Subject: [PATCH 40/40] fix: check the world CRS before writing interior
 parameters

---
 orthority/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index a71e8cd..8c88f7e 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -237,13 +237,13 @@ class FrameCameras(Cameras):
         return camera
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
+        if not self.crs:
+            raise CrsMissingError("A world 'crs' is required to write exterior parameters.")
+
         # write interior params
         int_param_file = common.join_ofile(out_dir, 'int_param.yaml', mode='wt')
         param_io.write_int_param(int_param_file, self._int_param_dict, overwrite=overwrite)
 
-        if not self.crs:
-            raise CrsMissingError("A world 'crs' is required to write exterior parameters.")
-
         # write exterior params
         ext_param_file = common.join_ofile(out_dir, 'ext_param.geojson', mode='wt')
         param_io.write_ext_param(
-- 
2.43.0

