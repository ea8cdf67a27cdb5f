From 1abc200508a2da86c0bd1a5150d8048fb71ddce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 01/20] fix: segm_mask no longer appends the background label
 to the caller's list

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From 86da1daef5bd61fd1b94ae94545938b440ead3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 02/20] fix: cache the sampling grid together with its key in
 one assignment

---
 petrofit/modeling/models.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..e827c79 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -158,10 +158,9 @@ class PSFConvolvedModel2D(FittableModel):
     _psf = None  # PSF image
 
     _cache_grid = True  # Cache sampling grid?
-    _cached_grid_size = 0  # Cached sampling grid size
-    _cached_grid_factor = 0  # Cached sampling grid oversampling rule
-    _cached_grid = None  # Cached sampling grid
-    _cache_grid_range = None  # Cached sampling grid range (x.min, x.max, y.min, y.max)
+    # Cached sampling grid and the (size, factor, range) it was made for. Both are kept in
+    # one tuple, so that an interrupted or concurrent render can never mix the two up.
+    _cached_grid = None
 
     def __init__(
         self, model, psf=None, oversample=None, psf_oversample=None, name=None, **kwargs
@@ -327,12 +326,7 @@ class PSFConvolvedModel2D(FittableModel):
 
     def clear_cached_grid(self):
         """Clears cached grid and resets class attributes to default values"""
-        self._cached_grid_size = 0
-        self._cached_grid_factor = 0
-        if self._cached_grid is not None:
-            del self._cached_grid
         self._cached_grid = None
-        self._cache_grid_range = None
 
     @property
     def cache_grid(self):
@@ -411,13 +405,11 @@ class PSFConvolvedModel2D(FittableModel):
         # Make main grid
         # --------------
         # Make the main sampling grid
-        if (
-            grid_size == self._cached_grid_size
-            and grid_factor == self._cached_grid_factor
-            and grid_range == self._cache_grid_range
-        ):
+        grid_key = (grid_size, grid_factor, grid_range)
+        cached_grid = self._cached_grid
+        if cached_grid is not None and cached_grid[0] == grid_key:
             # If the sampling gird cached
-            main_grid = self._cached_grid
+            main_grid = cached_grid[1]
         else:
             # Else make a sampling gird
             main_grid = make_grid(
@@ -425,10 +417,7 @@ class PSFConvolvedModel2D(FittableModel):
             )
             # Cache Grid
             if self.cache_grid:
-                self._cached_grid = main_grid
-                self._cached_grid_size = grid_size
-                self._cached_grid_factor = grid_factor
-                self._cache_grid_range = grid_range
+                self._cached_grid = (grid_key, main_grid)
 
         # Split main grid to x and y components
         x_grid, y_grid = main_grid
-- 
2.43.0


From 3727e7dca480442add5b3269249a9027d1200cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 03/20] fix: place the oversampling window relative to the
 image origin and crop it to the image

---
 petrofit/modeling/models.py | 53 +++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index e827c79..cb7f4a8 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -463,12 +463,17 @@ class PSFConvolvedModel2D(FittableModel):
                     idx = self._model.param_names.index(sub_grid_y0)
                     sub_grid_y0 = sub_model_params[idx][0] if isinstance(sub_model_params[idx], (list, np.ndarray)) else sub_model_params[idx]
 
-                # Compute the corner of the sub-grid
-                sub_grid_origin = (
-                    np.round(sub_grid_x0) - sub_grid_size // 2,
-                    np.round(sub_grid_y0) - sub_grid_size // 2,
+                # Compute the corner of the window in the main image frame (data resolution)
+                i_sub_min = int(
+                    np.round(np.round(sub_grid_x0) - sub_grid_size // 2 - x.min())
+                )
+                j_sub_min = int(
+                    np.round(np.round(sub_grid_y0) - sub_grid_size // 2 - y.min())
                 )
 
+                # Compute the corner of the sub-grid
+                sub_grid_origin = (x.min() + i_sub_min, y.min() + j_sub_min)
+
                 # Make an oversampled sub-grid for window
                 x_sub_grid, y_sub_grid = make_grid(
                     sub_grid_size, origin=sub_grid_origin, factor=sub_grid_factor
@@ -485,30 +490,22 @@ class PSFConvolvedModel2D(FittableModel):
                     / sub_grid_to_psf_factor**2
                 )
 
-                # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
-
-                # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
-
-                # Convert to PSF resolution
-                i_sub_min *= psf_factor
-                j_sub_min *= psf_factor
-                i_sub_max *= psf_factor
-                j_sub_max *= psf_factor
-
-                # Add oversampled window to image
-                model_image[j_sub_min:j_sub_max, i_sub_min:i_sub_max] = sub_model_image
+                # Clip window indices to the image
+                i_min, i_max = np.clip(
+                    [i_sub_min, i_sub_min + sub_grid_size], 0, i.max() + 1
+                )
+                j_min, j_max = np.clip(
+                    [j_sub_min, j_sub_min + sub_grid_size], 0, j.max() + 1
+                )
+
+                # Add oversampled window to image at PSF resolution
+                model_image[
+                    j_min * psf_factor : j_max * psf_factor,
+                    i_min * psf_factor : i_max * psf_factor,
+                ] = sub_model_image[
+                    (j_min - j_sub_min) * psf_factor : (j_max - j_sub_min) * psf_factor,
+                    (i_min - i_sub_min) * psf_factor : (i_max - i_sub_min) * psf_factor,
+                ]
 
         # PSF convolve
         # ------------
-- 
2.43.0


From a0c7d2f43eb3c9375b262e3cd7773a113a68f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 04/20] fix: reject oversample=None while the PSF is
 oversampled

---
 petrofit/modeling/models.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index cb7f4a8..d1823a5 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -287,10 +287,12 @@ class PSFConvolvedModel2D(FittableModel):
                 )
             if grid_factor <= 0:
                 raise ValueError("oversample should be a positive int factor.")
-            if grid_factor % psf_oversample != 0:
-                raise ValueError(
-                    "oversample should be equal to or an integer multiple of psf_oversample"
-                )
+        else:
+            grid_factor = 1
+        if grid_factor % psf_oversample != 0:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample"
+            )
         self._oversample = oversample
 
     @property
-- 
2.43.0


From 6c9a61b4ba3f10c6063b12917ff872ac6dd616bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 05/20] fix: Petrosian.half_flux_err reads the half light
 radius attributes that exist

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..c24c42b 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -822,13 +822,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From 248d8449a59a298cc9866d176b1aeefc440029a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 06/20] fix: fraction radii no longer raise when only their
 error range leaves the measured radii

---
 petrofit/petrosian/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index c24c42b..275218e 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -319,15 +319,18 @@ def fraction_to_r(
     r_epsilon_err = r_petrosian_err
 
     # Compute the fractional_flux_err error
+    # The error is undefined (nan) if the 1-sigma range of r_epsilon is not fully measured
     f_lower = interp1d(
         r_list,
         flux_list - flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
     f_upper = interp1d(
         r_list,
         flux_list + flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
 
     fractional_flux_err_lower = f_lower(r_epsilon - r_epsilon_err)
-- 
2.43.0


From ec3ef9764084f6714c35f56048c26b66a40d59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 07/20] fix: Petrosian total and half flux support
 interp_kind=None

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 275218e..e5855c4 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -787,7 +787,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -815,7 +819,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From ad5828a4e155cd05895a09d954602420f18e4598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 08/20] fix: estimate_epsilon finds the half light column for
 epsilon_fraction=0.5

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From 53fedf8e9f34a90c9551bc840da40300ce2b9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/20] fix: plot_correction works with matplotlib >= 3.9

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 0c29e1c..286979a 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -554,7 +554,7 @@ class PetrosianCorrection:
             assert len(axs) == 3, "axs should be a list of 3 axis"
             fig = axs[0].figure
 
-        cm = plt.cm.get_cmap(cmap)
+        cm = plt.get_cmap(cmap)
 
         sim_n_list = self.grid[cmap_key]
 
-- 
2.43.0


From 74ead98207451fda67a119b1b8aeca3c59e5d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 10/20] fix: cutout_subtract returns a copy as documented,
 instead of changing the input image

---
 petrofit/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..d4ad7da 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -229,6 +229,7 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
+    image = image.copy()
     dy, dx = target.shape
     bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
     bounds[bounds < 0] = 0
-- 
2.43.0


From b03f3f5547230570f384a672f5437d5c4f64865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 11/20] fix: measure_fwhm can plot: unpack what plot_fit
 returns and use its three panels

---
 petrofit/modeling/fitting.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..e544946 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -511,9 +511,6 @@ def measure_fwhm(image, plot=True, printout=True):
     x_fwhm = fitted_line.x_stddev * gaussian_sigma_to_fwhm
     y_fwhm = fitted_line.y_stddev * gaussian_sigma_to_fwhm
 
-    # Find half max
-    hm = fitted_line(x_mean, y_mean) / 2.0
-
     # Find the mean of the x and y direction
     mean_fwhm = np.mean([x_fwhm, y_fwhm])
     mean_fwhm = int(np.round(mean_fwhm))
@@ -536,10 +533,7 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
-
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        [ax0, ax1, ax2], _, _, _ = plot_fit(fitted_line, image)
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -555,25 +549,23 @@ def measure_fwhm(image, plot=True, printout=True):
         ax0.set_title("Center and FWHM Plot")
         ax0.legend()
 
-        # Plot X fit
-        # ----------
+        # Plot X center and FWHM on the model panel
+        # -----------------------------------------
 
-        ax2.axvline(x_mean, linestyle="-", label="Center")
-        ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
-        ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
-        ax2.axhline(hm, c="black", linestyle="--", label="Half Max")
+        ax1.axvline(x_mean, linestyle="-", label="Center")
+        ax1.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
+        ax1.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
 
-        ax2.legend()
+        ax1.legend()
 
-        # Plot Y fit
-        # ----------
+        # Plot Y center and FWHM on the residual panel
+        # --------------------------------------------
 
-        ax3.axvline(y_mean, linestyle="-", label="Center")
-        ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
-        ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-        ax3.axhline(hm, c="black", linestyle="--", label="Half Max")
+        ax2.axhline(y_mean, linestyle="-", label="Center")
+        ax2.axhline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
+        ax2.axhline(y_mean + y_fwhm / 2, c="g", linestyle="--")
 
-        ax3.legend()
+        ax2.legend()
 
         plt.show()
 
-- 
2.43.0


From ead672904c3c3eb3eb1d8386a6266675e90fcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 12/20] fix: save correction grids atomically, so a crash or
 I/O error never leaves a partial grid

---
 petrofit/petrosian/correction.py | 33 +++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 286979a..2db19e9 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -1,4 +1,7 @@
 from copy import copy
+import os
+import shutil
+import tempfile
 import warnings
 
 import numpy as np
@@ -21,6 +24,27 @@ from matplotlib import pyplot as plt
 __all__ = ["generate_petrosian_sersic_correction", "PetrosianCorrection"]
 
 
+def _write_grid(grid, grid_file, file_format=None, overwrite=False):
+    """
+    Write a grid to file, such that the file always holds either what it held before or the
+    complete grid: the grid is written to a temporary file which then replaces `grid_file`.
+    """
+    if isinstance(grid_file, (str, os.PathLike)):
+        path = os.path.realpath(os.path.expanduser(grid_file))
+        if not os.path.exists(path) or (overwrite and os.path.isfile(path)):
+            temp_dir = tempfile.mkdtemp(prefix=".petrofit-", dir=os.path.dirname(path))
+            try:
+                temp_file = os.path.join(temp_dir, os.path.basename(grid_file))
+                grid.write(temp_file, format=file_format)
+                os.replace(temp_file, path)
+            finally:
+                shutil.rmtree(temp_dir, ignore_errors=True)
+            return
+
+    # Not a (replaceable) file, or a file that should not be overwritten
+    grid.write(grid_file, format=file_format, overwrite=overwrite)
+
+
 def _generate_petrosian_correction(args):
     """
     Helper function to compute corrections for a single pair of `r_eff` and `n`.
@@ -330,8 +354,11 @@ def generate_petrosian_sersic_correction(
 
     if output_file_name is not None:
         try:
-            petrosian_grid.write(
-                output_file_name, format=out_format, overwrite=overwrite
+            _write_grid(
+                petrosian_grid,
+                output_file_name,
+                file_format=out_format,
+                overwrite=overwrite,
             )
         except Exception as e:
             print("Could not save to file: {}".format(e))
@@ -402,7 +429,7 @@ class PetrosianCorrection:
 
     def write(self, grid_file, file_format=None):
         """Write grid to file."""
-        self.grid.write(grid_file, format=file_format)
+        _write_grid(self.grid, grid_file, file_format=file_format)
 
     @property
     def grid_keys(self):
-- 
2.43.0


From f121d7a708ac1ce321fb65be92fed8be19f470c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 13/20] fix: GenSersic2D no longer relies on a private
 attribute removed from astropy's Sersic2D

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index d1823a5..a1e7f59 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -561,12 +561,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From 3fee733c502482d909773758f7ece479294b61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 14/20] fix: a model can be copied while another thread renders
 it

---
 petrofit/modeling/models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index a1e7f59..8b5becd 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -195,6 +195,13 @@ class PSFConvolvedModel2D(FittableModel):
         if "bounds" not in kwargs:
             self.bounds.update(model.bounds)
 
+    def __getstate__(self):
+        """
+        State to copy or pickle. This is a snapshot of the attributes, since some of them are
+        only set once needed (for example by another thread that is rendering the model).
+        """
+        return self.__dict__.copy()
+
     def _load_parameters(self):
         """Function to load parameters from the sub-model"""
         if self._parameters is not None:
-- 
2.43.0


From 0b8f1283cc4bd83fa5ce324ef0aebc6322cc466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 15/20] fix: fit a copy of the model, so that fits in several
 threads can share one model

---
 petrofit/modeling/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index e544946..8fb4ee9 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -105,6 +105,10 @@ def fit_model(
         ), "RMS array does not have the same shape as input image."
         w = weights[(y_arange, x_arange)]
 
+    # Fit a copy of the model, since fitters cache constraints in the model they are given.
+    # The input model may be shared with other threads (for example the default background model).
+    model = model.copy()
+
     # Fit model to grid
     fitter_instance = fitter(calc_uncertainties=calc_uncertainties)
 
-- 
2.43.0


From f5bdb78aa753476bd586d019137fcfb60256047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 16/20] fix: fraction radii are nan, instead of an error, when
 r_epsilon is below the measured radii

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index e5855c4..22d7a89 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -288,7 +288,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if r_epsilon < min(r_list) or r_epsilon > max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From 1ac4e31dfecfa83ca58f3f1010a04abdb6f4a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 17/20] fix: get_interpolated_values(kind=None) returns copies,
 not the caller's own arrays

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index d4ad7da..e5a5db0 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -140,7 +140,7 @@ def get_interpolated_values(x, y, num=5000, kind="cubic"):
         Interpolated values
     """
     if kind is None:
-        return x, y
+        return np.array(x), np.array(y)
 
     if len(x) > num:
         num = len(x)
-- 
2.43.0


From 73c29d1be3a00e4b2e095da7b21bafe61e8eb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 18/20] fix: plot_cog can draw profiles that have area errors
 but no flux errors

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 22d7a89..4abb2b3 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1149,7 +1149,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From 81410d2346c42b815fbf6cc92de31833333395b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 19/20] fix: a failed save is reported also when standard
 output cannot show the file's name

---
 petrofit/petrosian/correction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 2db19e9..6b8680e 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -1,6 +1,7 @@
 from copy import copy
 import os
 import shutil
+import sys
 import tempfile
 import warnings
 
@@ -361,7 +362,10 @@ def generate_petrosian_sersic_correction(
                 overwrite=overwrite,
             )
         except Exception as e:
-            print("Could not save to file: {}".format(e))
+            # Standard output may not be able to show all characters of the message (file names)
+            encoding = getattr(sys.stdout, "encoding", None) or "utf-8"
+            message = str(e).encode(encoding, "backslashreplace").decode(encoding)
+            print("Could not save to file: {}".format(message))
             print("You can save the returned table using `petrosian_grid.write`")
     return petrosian_grid
 
-- 
2.43.0


From 10fd404f699b6bd50f287aee35fd514a8e852bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:50 +0000
Subject: [PATCH 20/20] fix: renders at fractional origins no longer repeat
 pixels: whole coordinate differences just below a whole number were truncated

---
 petrofit/modeling/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 8b5becd..8e1960f 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -383,9 +383,9 @@ class PSFConvolvedModel2D(FittableModel):
         # Extract sub-model params as well as `psf_p`
         *sub_model_params, psf_p = params
 
-        # Prepare image indices
-        i = (x - x.min()).astype(int)
-        j = (y - y.min()).astype(int)
+        # Prepare image indices (coordinate differences can be just below a whole number)
+        i = np.rint(x - x.min()).astype(int)
+        j = np.rint(y - y.min()).astype(int)
 
         # Is oversampling sub-grid based
         is_subgrid_oversample = isinstance(self.oversample, tuple)
-- 
2.43.0

