From 14740984519e11fa6fe68b02df658d52569446bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:40 +0000
Subject: [PATCH 01/31] fix: align even-sized focal windows of unmasked min,
 max and sum

---
 raster_tools/focal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..07c671f 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -285,17 +285,28 @@ def _focal(data, kernel, stat, nan_aware=False):
     kernel = kernel.astype(bool)
     if not nan_aware and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
+        # Shift pixel origins to match ESRI behavior for even shaped kernels
+        origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
         if stat == "min":
             func = partial(
-                ndfilters.minimum_filter, footprint=kernel, mode="nearest"
+                ndfilters.minimum_filter,
+                footprint=kernel,
+                mode="nearest",
+                origin=origin,
             )
         elif stat == "max":
             func = partial(
-                ndfilters.maximum_filter, footprint=kernel, mode="nearest"
+                ndfilters.maximum_filter,
+                footprint=kernel,
+                mode="nearest",
+                origin=origin,
             )
         elif stat == "sum":
             func = partial(
-                ndfilters.correlate, weights=kernel, mode="constant"
+                ndfilters.correlate,
+                weights=kernel,
+                mode="constant",
+                origin=origin,
             )
         data = da.stack([func(d) for d in data])
     else:
-- 
2.43.0


From bcf26d2db39c5030efa4e60ad496d91566fef7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 02/31] fix: keep cells outside the raster out of focal min and
 max

---
 raster_tools/focal.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 07c671f..1fef118 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -270,6 +270,14 @@ _STAT_TO_FUNC = {
 }
 
 
+def _get_dtype_limits(dtype):
+    if is_bool(dtype):
+        return False, True
+    if is_float(dtype):
+        return -np.inf, np.inf
+    return get_dtype_min_max(dtype)
+
+
 def _focal(data, kernel, stat, nan_aware=False):
     """Apply a focal stat function.
 
@@ -287,18 +295,19 @@ def _focal(data, kernel, stat, nan_aware=False):
         # Use ndfilters which is faster but dosn't handle nan values
         # Shift pixel origins to match ESRI behavior for even shaped kernels
         origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
-        if stat == "min":
+        if stat in ("min", "max"):
+            # Cells outside of the raster must never win. Extending the edge
+            # cells instead is wrong for windows with holes (annulus).
+            lo, hi = _get_dtype_limits(data.dtype)
+            if stat == "min":
+                filter_func, cval = ndfilters.minimum_filter, hi
+            else:
+                filter_func, cval = ndfilters.maximum_filter, lo
             func = partial(
-                ndfilters.minimum_filter,
+                filter_func,
                 footprint=kernel,
-                mode="nearest",
-                origin=origin,
-            )
-        elif stat == "max":
-            func = partial(
-                ndfilters.maximum_filter,
-                footprint=kernel,
-                mode="nearest",
+                mode="constant",
+                cval=cval,
                 origin=origin,
             )
         elif stat == "sum":
-- 
2.43.0


From 807a1f45222f56ae7a127300f2d4a442fb366cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 03/31] fix: do not let unmasked integer focal sums wrap around

---
 raster_tools/focal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 1fef118..2d8c82e 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -7,6 +7,7 @@ from dask_image import ndfilters
 
 from raster_tools.dtypes import (
     F64,
+    I64,
     U8,
     U16,
     U32,
@@ -311,6 +312,11 @@ def _focal(data, kernel, stat, nan_aware=False):
                 origin=origin,
             )
         elif stat == "sum":
+            # Accumulate in a wide type to keep small integers from wrapping
+            if is_bool(data.dtype) or data.dtype.kind == "u":
+                data = data.astype(U64)
+            elif is_int(data.dtype):
+                data = data.astype(I64)
             func = partial(
                 ndfilters.correlate,
                 weights=kernel,
-- 
2.43.0


From 473ca999ccd86448721e32e083edf6f771331205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 04/31] fix: give null cells a focal value when ignore_null is
 set

---
 raster_tools/focal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 2d8c82e..4d34ff4 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -446,7 +446,10 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     if raster._masked:
         nv = np.nan
         mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        if ignore_null:
+            # Null cells get a value if there are valid cells around them
+            mask = ~_focal(~mask, window, "max")
+        mask = mask | np.isnan(data)
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From 466962b80dcb442c7a51c8b917035a27021cbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 05/31] fix: support 8-bit and float16 rasters in focal and
 correlation kernels

---
 raster_tools/focal.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index 4d34ff4..eb4a15d 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,8 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F16,
+    F32,
     F64,
     I64,
     U8,
@@ -47,6 +49,13 @@ __all__ = [
 ngjit = nb.jit(nopython=True, nogil=True)
 
 
+def _promote_dtype_to_kernel_float(dtype):
+    """Get the float dtype to use for `dtype` in the numba kernels."""
+    dtype = promote_dtype_to_float(dtype)
+    # Numba doesn't support float16
+    return F32 if dtype == F16 else dtype
+
+
 @single_band_mappable
 @ngjit
 def _focal_chunk(chunk, kernel, kernel_func):
@@ -327,7 +336,7 @@ def _focal(data, kernel, stat, nan_aware=False):
     else:
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _promote_dtype_to_kernel_float(data.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
@@ -416,10 +425,13 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
 
     window = get_focal_window(width_or_radius, height)
     data = raster.data
+    if data.dtype == F16:
+        # Neither numba nor scipy.ndimage support float16
+        data = data.astype(F32)
 
     # Convert to float and fill nulls with nan, if needed
     if raster._masked:
-        new_dtype = promote_dtype_to_float(raster.dtype)
+        new_dtype = _promote_dtype_to_kernel_float(data.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
@@ -591,12 +603,13 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     data = raster.data
     final_dtype = data.dtype
 
+    if data.dtype == F16:
+        # Neither numba nor scipy.ndimage support float16
+        data = data.astype(F32)
     # Convert to float and fill nulls with nan, if needed
-    upcast = False
     if raster._masked:
-        new_dtype = promote_dtype_to_float(data.dtype)
-        upcast = new_dtype != data.dtype
-        if upcast:
+        new_dtype = _promote_dtype_to_kernel_float(data.dtype)
+        if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
 
@@ -604,8 +617,8 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
         data, kernel, mode=mode, cval=cval, nan_aware=raster._masked
     )
 
-    # Cast back to int, if needed
-    if upcast:
+    # Cast back, if needed
+    if data.dtype != final_dtype:
         data = data.astype(final_dtype)
 
     if raster._masked:
-- 
2.43.0


From cfa460b17d1ab222fc7308d6ca3a14d75cf38f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 06/31] fix: compute null-aware statistics of 8-bit rasters in
 float32

---
 raster_tools/dtypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index ffbfaa2..00457f5 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -146,9 +146,10 @@ def get_common_dtype(items):
 def promote_dtype_to_float(dtype):
     if dtype.kind == "f":
         return dtype
-    if np.can_cast(dtype, F16):
-        return F16
-    elif np.can_cast(dtype, F32):
+    # float16 can represent all 8-bit values but it overflows or loses
+    # precision as soon as they are combined. It is also not supported by numba
+    # and scipy.ndimage.
+    if np.can_cast(dtype, F32):
         return F32
     return F64
 
-- 
2.43.0


From 32ea34f9e693776eec6dcfc171ebed4c845cb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 07/31] fix: do not modify the mapping passed to reclassify

---
 raster_tools/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..60ca209 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1376,6 +1376,8 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     else:
         nv = get_default_null_value(out_dtype)
     masked = raster._masked or unmapped_to_null
+    # Copy to avoid modifying the user's mapping
+    remapping = dict(remapping)
     for k in remapping:
         if remapping[k] is None:
             remapping[k] = nv
-- 
2.43.0


From e2e017956afb213001ae39f971d8b25348054a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 08/31] fix: support float16 results in reclassify

---
 raster_tools/general.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 60ca209..9037599 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1384,19 +1384,26 @@ def reclassify(raster, remapping, unmapped_to_null=False):
             masked = True
 
     mapping_from = np.array(list(remapping))
-    mapping_to = np.array(list(remapping.values())).astype(out_dtype)
+    # numba doesn't understand f16 so use f32 and then downcast
+    chunk_dtype = F32 if out_dtype == F16 else out_dtype
+    mapping_to = np.array(list(remapping.values())).astype(chunk_dtype)
+    in_data = raster.data
+    if in_data.dtype == F16:
+        in_data = in_data.astype(F32)
     data = da.map_blocks(
         _reclassify_chunk,
-        raster.data,
+        in_data,
         raster.mask,
         mapping_from=mapping_from,
         mapping_to=mapping_to,
         unmapped_to_null=unmapped_to_null,
-        null=nv,
-        out_dtype=out_dtype,
-        dtype=out_dtype,
-        meta=np.array((), dtype=out_dtype),
+        null=chunk_dtype.type(nv),
+        out_dtype=chunk_dtype,
+        dtype=chunk_dtype,
+        meta=np.array((), dtype=chunk_dtype),
     )
+    if chunk_dtype != out_dtype:
+        data = data.astype(out_dtype)
     if not masked:
         nv = None
     return data_to_raster_like(data, raster, nv=nv)
-- 
2.43.0


From 89abcca96cb4bb52a446b6c2abfc1e2554506dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 09/31] fix: do not mask valid cells that match the null value
 picked by where

---
 raster_tools/general.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 9037599..c04dde7 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -69,6 +69,7 @@ from raster_tools.stat_common import (
     nanentropy_jit,
     nanmode_jit,
 )
+from raster_tools.utils import null_values_equal
 
 __all__ = [
     "ModelPredictAdaptor",
@@ -1224,6 +1225,9 @@ def where(condition, true_rast, false_rast):
         cd = cd > 0
     if masked:
         nv = _get_where_nv(x, y)
+        # Scalars are null if they are None or equal to nv
+        x_null = x is None or (is_scalar(x) and null_values_equal(x, nv))
+        y_null = y is None or (is_scalar(y) and null_values_equal(y, nv))
         if x is None:
             x = nv
         if y is None:
@@ -1236,14 +1240,12 @@ def where(condition, true_rast, false_rast):
         xd = getattr(x, "xdata", x)
         yd = getattr(y, "xdata", y)
         cm = condition.xmask
-        xm = getattr(x, "xmask", False)
-        ym = getattr(y, "xmask", False)
+        xm = getattr(x, "xmask", x_null)
+        ym = getattr(y, "xmask", y_null)
         data = xr.where(cd, xd, yd)
         mask = xr.where(cd, xm, ym)
         mask = xr.where(cm, True, mask)
         data = xr.where(mask, nv, data)
-        # Pick up any new null values caused by x/y being None or equal to nv
-        mask = data == nv if not np.isnan(nv) else np.isnan(data)
         data = data.rio.write_nodata(nv)
     else:
         xd = getattr(x, "xdata", x)
-- 
2.43.0


From ce57ec31e91d727e273597e86f39ba8b48faa097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 10/31] fix: allow NaN as the null value of 64-bit integer
 rasters

---
 raster_tools/dtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index 00457f5..8cc01cb 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -195,5 +195,6 @@ INT_DTYPE_TO_FLOAT_DTYPE = {
     I8: F16,
     I16: F32,
     I32: F64,
-    F64: F64,
+    U64: F64,
+    I64: F64,
 }
-- 
2.43.0


From 262f78d3f524e249a7c6d232201877969f15e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 11/31] fix: honor null values requested from astype that are
 close to the current one

---
 raster_tools/raster.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..85bb99f 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1906,9 +1906,7 @@ class Raster(_RasterBase):
 
         xrs_casted = xrs.astype(dtype)
         if new_null_value is not None:
-            if self._masked and not np.allclose(
-                new_null_value, self.null_value, equal_nan=True
-            ):
+            if self._masked:
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
@@ -1923,7 +1921,7 @@ class Raster(_RasterBase):
                     xrs_casted = xr.where(
                         mask, nv, xrs_casted
                     ).rio.write_nodata(nv)
-            # else: do nothing since the null values already match
+            # else: do nothing since there are no null cells
         elif self._masked:
             nv = reconcile_nullvalue_with_dtype(
                 nv, dtype, warn_about_null_change
-- 
2.43.0


From 5ba1863b1dc594e5ea34d1f94e07e9f0dac1057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 12/31] fix: keep null values that the new dtype can represent

---
 raster_tools/masking.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/raster_tools/masking.py b/raster_tools/masking.py
index 9f5eab0..2c9ec83 100644
--- a/raster_tools/masking.py
+++ b/raster_tools/masking.py
@@ -84,24 +84,22 @@ def reconcile_nullvalue_with_dtype(null_value, dtype, warn=False):
         return original_nv
 
     original_nv = null_value
-    # TODO: stop checking if the value is an integer. Too much complexity. If
-    # it is a float, treat it as a float.
-    if is_float(original_nv) and float(original_nv).is_integer():
-        if any(
-            np.allclose(original_nv, v)
-            for v in (*get_dtype_min_max(F32), *get_dtype_min_max(F64))
-        ):
-            nv = original_nv
-        else:
-            nv = int(original_nv)
-            min_type = np.min_scalar_type(nv)
-            nv = min_type.type(nv)
-            if min_type.kind == "O":
-                nv = original_nv
-    else:
-        nv = np.min_scalar_type(original_nv).type(original_nv)
-    if np.can_cast(nv, dtype) or (is_bool(dtype) and nv in (0, 1)):
-        return dtype.type(nv)
+    # The types are not enough to tell so check the value
+    if is_float(dtype):
+        with np.errstate(over="ignore"):
+            nv = dtype.type(original_nv)
+        if is_float(original_nv):
+            if np.isfinite(nv) or np.isinf(original_nv):
+                return nv
+        elif float(nv) == int(original_nv):
+            return nv
+    elif is_bool(dtype):
+        if original_nv in (0, 1):
+            return dtype.type(original_nv)
+    elif np.isfinite(original_nv) and int(original_nv) == original_nv:
+        vmin, vmax = get_dtype_min_max(dtype)
+        if int(vmin) <= int(original_nv) <= int(vmax):
+            return dtype.type(int(original_nv))
     nv = get_default_null_value(dtype)
     if warn:
         warnings.warn(
-- 
2.43.0


From 75909726dae366cca6b5616701861a009aa02a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 13/31] fix: support nulls in float16 results of remap_range

---
 raster_tools/general.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index c04dde7..f96b4c4 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1098,6 +1098,12 @@ def remap_range(raster, mapping, inclusivity="left"):
         [[s, e] for s, e in zip(map_starts, map_ends, strict=True)]
     )
     new_values = np.array([v if v is not None else nv for v in map_outs])
+    # Can't pass None object to numba code
+    null = 0 if nv is None else nv
+    if f16_workaround:
+        null = F32.type(null)
+        if new_values.dtype == F16:
+            new_values = new_values.astype(F32)
 
     data = raster.data
     mask = raster.mask
@@ -1112,8 +1118,7 @@ def remap_range(raster, mapping, inclusivity="left"):
         _remap_values,
         data,
         mask,
-        # Can't pass None object to numba code
-        null=0 if nv is None else nv,
+        null=null,
         start_end_values=start_end_values,
         new_values=new_values,
         inclusivity=inc_map[inclusivity],
-- 
2.43.0


From ee7283592507bccd7d5afce11786f8bbb2bd8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 14/31] fix: support integer keys when reclassifying float
 rasters

---
 raster_tools/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index f96b4c4..e112e72 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1397,6 +1397,9 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     in_data = raster.data
     if in_data.dtype == F16:
         in_data = in_data.astype(F32)
+    if is_float(in_data.dtype):
+        # numba can't look up float values in a mapping with integer keys
+        mapping_from = mapping_from.astype(in_data.dtype)
     data = da.map_blocks(
         _reclassify_chunk,
         in_data,
-- 
2.43.0


From 7f6b11f4b3f0dba6c1d010abdc7bff2b0d05194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 15/31] fix: return a single band from local_stats of unmasked
 rasters

---
 raster_tools/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index e112e72..84d10b4 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -724,7 +724,7 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
-        xmask = xr.zeros_like(xmask, dtype=bool)
+        xmask = xr.zeros_like(xdata, dtype=bool)
 
     ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
     if raster._masked:
-- 
2.43.0


From 4dda9cd9d9ed7b1f2e1fb53b77abca6a8a4ef386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 16/31] fix: ignore null bands in minband and maxband when the
 rest is infinite

---
 raster_tools/stat_common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raster_tools/stat_common.py b/raster_tools/stat_common.py
index 97af789..b4e6973 100644
--- a/raster_tools/stat_common.py
+++ b/raster_tools/stat_common.py
@@ -184,13 +184,13 @@ def nanargmin_jit(x):
         return -2
     x = x.ravel()
     nan_mask = nan_mask.ravel()
-    j = 0
+    j = -1
     min_val = np.inf
     for i in range(x.size):
         v = x[i]
         if nan_mask[i]:
             continue
-        if v < min_val:
+        if j < 0 or v < min_val:
             j = i
             min_val = v
     return j
@@ -208,13 +208,13 @@ def nanargmax_jit(x):
         return -2
     x = x.ravel()
     nan_mask = nan_mask.ravel()
-    j = 0
+    j = -1
     max_val = -np.inf
     for i in range(x.size):
         v = x[i]
         if nan_mask[i]:
             continue
-        if v > max_val:
+        if j < 0 or v > max_val:
             j = i
             max_val = v
     return j
-- 
2.43.0


From 7e0fa7454cbdf7517763da6f5953c24a00509439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 17/31] fix: dilate and erode infinite cells and boolean
 rasters

---
 raster_tools/general.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 84d10b4..3355971 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -773,7 +773,11 @@ def _get_footprint(size):
 
 
 def _get_fill(dtype, op):
-    type_info = np.iinfo(dtype) if is_int(dtype) else np.finfo(dtype)
+    if is_bool(dtype):
+        return op == "erosion"
+    if is_float(dtype):
+        return np.inf if op == "erosion" else -np.inf
+    type_info = np.iinfo(dtype)
     return type_info.max if op == "erosion" else type_info.min
 
 
-- 
2.43.0


From 3d5dc69e733396b9118c39f9df4aa9f2dec19519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 18/31] fix: do not give dilated and eroded unmasked rasters a
 null value

---
 raster_tools/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 3355971..d9021c1 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -822,7 +822,8 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         mask = ~mask
         data = da.where(mask, raster.null_value, data)
     else:
-        mask = mask.copy()
+        # Passing a mask would give the result a null value
+        mask = None
     ds_out = data_to_xr_raster_ds_like(
         data, raster.xdata, mask=mask, nv=raster.null_value
     )
-- 
2.43.0


From 1847c27ef9dcc384db1b307bf2ff56e3a6af3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 19/31] fix: keep NaN when it is the null value requested from
 astype for a float dtype

---
 raster_tools/raster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 85bb99f..dbf8c56 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1910,8 +1910,12 @@ class Raster(_RasterBase):
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-                        nv = reconcile_nullvalue_with_dtype(
-                            new_null_value, dtype, warn=True
+                        nv = (
+                            new_null_value
+                            if is_float(dtype) and np.isnan(new_null_value)
+                            else reconcile_nullvalue_with_dtype(
+                                new_null_value, dtype, warn=True
+                            )
                         )
                     except UserWarning:
                         raise ValueError(
-- 
2.43.0


From 6a0ca79171d9573131c41d40348262e6c36d91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 20/31] fix: do not lose partial sums that equal the null value
 in mosaic

---
 raster_tools/_mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index c07eb40..82c075f 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -132,7 +132,9 @@ def _paint_recursive(stacked_data, dst_nodata, mosaic_method):
     # Use recursion to greatly reduce dask's memory usage. 8 was found to be a
     # good cutoff.
     n = len(stacked_data)
-    if n < 8:
+    # A partial sum can equal dst_nodata so sums can't be split up. The dask
+    # reduction used for them is already a tree reduction.
+    if n < 8 or mosaic_method == "sum":
         return _paint(stacked_data, dst_nodata, mosaic_method)
 
     left = _paint_recursive(stacked_data[: n // 2], dst_nodata, mosaic_method)
-- 
2.43.0


From e96fee9cb67869005840177be593b459556d2af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 21/31] fix: surface functions left cells with null neighbours
 unmasked (NaN, or 0 in hillshade)

---
 raster_tools/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..2353613 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -31,8 +31,9 @@ DEGREES_TO_RADIANS = np.pi / 180
 
 
 def _finalize(data, like):
+    # A null cell invalidates its whole neighborhood
+    mask = like.mask | da.isnan(data)
     # Invalidate edges
-    mask = like.mask.copy()
     mask[:, 0, :] = True
     mask[:, -1, :] = True
     mask[:, :, 0] = True
-- 
2.43.0


From 2898dfa67b2c6b1f5f46c7b684a0306267d391e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 22/31] fix: ufuncs with two outputs (modf, divmod, frexp)
 raised for rasters without a null value

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index dbf8c56..fd2f2d0 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -227,7 +227,7 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     xr_out = ufunc(*ufunc_args, **kwargs)
     multi_out = ufunc.nout > 1
     if not masked:
-        mask = get_mask_from_data(xr_out, None)
+        mask = get_mask_from_data(xr_out[0] if multi_out else xr_out, None)
         if not multi_out:
             xmask = xr.DataArray(mask, dims=xr_out.dims, coords=xr_out.coords)
             xr_out = xr_out.rio.write_nodata(None)
-- 
2.43.0


From 0762e95f89af18576b9bfbd5703435e9f41d6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 23/31] fix: tpi turned null cells into valid zeros

---
 raster_tools/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 2353613..ca5b99a 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -560,7 +560,9 @@ def tpi(dem, annulus_inner, annulus_outer):
         radii = annulus_outer
     else:
         radii = (annulus_inner, annulus_outer)
-    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(I32, False)
+    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(
+        I32, warn_about_null_change=False
+    )
     if dem._masked:
         rs_tpi = rs_tpi.set_null_value(get_default_null_value(I32))
     return rs_tpi
-- 
2.43.0


From eab4f1aa3b1d5cc8735f3cfbf8fd389182b279ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 24/31] fix: cost distance raised for null cells in small
 unsigned integer rasters

---
 raster_tools/distance/cost_distance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 51d7e97..e6b87a1 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -454,7 +454,9 @@ def _normalize_raster_data(rs, missing=-1):
             elif not np.isnan(missing):
                 data = da.where(np.isnan(data), missing, data)
         else:
-            data = da.where(rs.mask, missing, data)
+            # Make sure that the dtype can hold the missing value
+            dtype = np.promote_types(data.dtype, np.min_scalar_type(missing))
+            data = da.where(rs.mask, missing, data.astype(dtype))
     # Trim off band dim
     data = data[0]
     return data
-- 
2.43.0


From 3b7a1720a391900c9673047b81765cfa56014764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 25/31] fix: pad rounded large 64-bit fill values of multiband
 rasters through float

---
 raster_tools/_padding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_padding.py b/raster_tools/_padding.py
index 715f676..3159a14 100644
--- a/raster_tools/_padding.py
+++ b/raster_tools/_padding.py
@@ -171,7 +171,11 @@ def pad(raster, target, *, fill_values=None):
     zeros = zeros.rio.write_nodata(None).rio.write_crs(pad_crs)
     is_new = zeros.rio.pad_box(*bounds, constant_values=True)
 
-    fill_arr = np.asarray(per_band).astype(xdata_padded.dtype)
+    # Cast one at a time: as one array, fill values of mixed types (such as
+    # large 64-bit integers) would be promoted to float first
+    fill_arr = np.array(
+        [np.asarray(v).astype(xdata_padded.dtype) for v in per_band]
+    )
     fill_da = xr.DataArray(
         fill_arr, dims=("band",), coords={"band": xdata_padded.band}
     )
-- 
2.43.0


From 1c2d74a36097501695e54bff54b278af382a235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 26/31] fix: proximity padded integer rasters with cells that
 could be taken for targets

---
 raster_tools/distance/proximity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..9a6f33a 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -450,8 +450,8 @@ def _get_coords_for_chunk(xc, yc, coords_block_info, block_info):
     ydepth, xdepth = coords_block_info["depth"]
     xc = da.from_array(xc, chunks=xchunks)
     yc = da.from_array(yc, chunks=ychunks)
-    xc = da.overlap.overlap(xc, depth=xdepth, boundary=0)
-    yc = da.overlap.overlap(yc, depth=ydepth, boundary=0)
+    xc = da.overlap.overlap(xc, depth=xdepth, boundary="none")
+    yc = da.overlap.overlap(yc, depth=ydepth, boundary="none")
     xc = xc.blocks[chunk_loc[1]].compute()
     yc = yc.blocks[chunk_loc[0]].compute()
     return xc, yc
@@ -605,7 +605,9 @@ def _proximity_analysis(
         _proximity_analysis_chunk,
         raster.data,
         depth=(0, ydepth, xdepth),
-        boundary=np.nan,
+        # No padding beyond the raster's edge. Padded cells could look like
+        # targets, since dtypes other than float can't hold NaN.
+        boundary="none",
         meta=np.array((), dtype=out_dtype),
         # func args
         target_values=target_values,
-- 
2.43.0


From 962b024c9a0eb88e5dcdbe9f6ac0714bbfcf5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 27/31] fix: proximity raised when the maximum distance reached
 beyond the raster

---
 raster_tools/distance/proximity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 9a6f33a..56bc538 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -584,7 +584,11 @@ def _proximity_analysis(
             # Use minimum so that we always overestimate and never
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
-        xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        xdepth, ydepth = np.ceil(max_distance / np.abs(resolution))
+        # Overlap can't be larger than the raster
+        _, ny, nx = raster.shape
+        xdepth = int(min(xdepth, nx))
+        ydepth = int(min(ydepth, ny))
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From d96b98972f61ccc3387ecf29910a026268d89608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 28/31] fix: great circle proximity used too few neighbouring
 cells at high latitudes

---
 raster_tools/distance/proximity.py | 43 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 56bc538..e8cf375 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -14,6 +14,9 @@ __all__ = [
     "proximity_analysis",
 ]
 
+# Mean Earth radius for WGS84
+_EARTH_RADIUS = 6371009.0
+
 _JIT_KWARGS = {"nopython": True, "nogil": True}
 ngjit = nb.jit(**_JIT_KWARGS)
 
@@ -77,9 +80,7 @@ def _haversine_dist_sqr(x1, y1, x2, y2):
     sinlat = np.sin((y2 - y1) / 2.0)
     sinlon = np.sin((x2 - x1) / 2.0)
     h = (sinlat * sinlat) + (np.cos(y1) * np.cos(y2) * sinlon * sinlon)
-    # Mean Earth radius for WGS84
-    r = 6371009.0
-    hav = 2 * r * np.arcsin(np.sqrt(h))
+    hav = 2 * _EARTH_RADIUS * np.arcsin(np.sqrt(h))
     return hav * hav
 
 
@@ -523,18 +524,20 @@ def _validate_lonlat_coords(lon, lat):
         )
 
 
-def _estimate_min_resolution(lon, lat):
-    x1 = lon[0]
-    y1 = lat.max()
-    x2 = lon[1]
-    y2 = y1
-    xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-    x1 = lon[0]
-    x2 = lon[0]
-    # Get two largest latitudes
-    y1, y2 = np.partition(lat, -2)[-2:]
-    ymin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-    return xmin, ymin
+def _great_circle_depth(lon, lat, max_distance):
+    # The number of columns and rows that can be within max_distance of a cell
+    angle = max_distance / _EARTH_RADIUS
+    ydepth = np.ceil(angle / np.radians(np.abs(lat[1] - lat[0])))
+    # The meridians converge towards the poles, so the widest reach is at the
+    # latitude furthest from the equator.
+    max_lat = np.radians(np.abs(lat).max())
+    if angle + max_lat < np.pi / 2:
+        reach = np.arcsin(np.sin(angle) / np.cos(max_lat))
+        xdepth = np.ceil(reach / np.radians(np.abs(lon[1] - lon[0])))
+    else:
+        # A pole is within reach
+        xdepth = len(lon)
+    return xdepth, ydepth
 
 
 def _proximity_analysis(
@@ -576,15 +579,9 @@ def _proximity_analysis(
         ydepth = 0
     else:
         if distance_metric not in ("haversine", "great_circle"):
-            resolution = raster.resolution
+            xdepth, ydepth = np.ceil(max_distance / np.abs(raster.resolution))
         else:
-            # When x/y are lon/lat, the resolution in meters decreases with
-            # increasing latitude. Estimate the minimum resolution (cell size
-            # at highest latitude) and use that for chunk overlap calculation.
-            # Use minimum so that we always overestimate and never
-            # underestimate the depth.
-            resolution = _estimate_min_resolution(x, y)
-        xdepth, ydepth = np.ceil(max_distance / np.abs(resolution))
+            xdepth, ydepth = _great_circle_depth(x, y, max_distance)
         # Overlap can't be larger than the raster
         _, ny, nx = raster.shape
         xdepth = int(min(xdepth, nx))
-- 
2.43.0


From da88cc64f2a6a2ecea2c0e2ea9d320cc32e2386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 29/31] fix: get_chunk_bounding_boxes raised for chunks of a
 single row or column

---
 raster_tools/raster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index fd2f2d0..e6ee101 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2890,6 +2890,7 @@ class Raster(_RasterBase):
 
         """  # noqa: E501
         _, ychunks, xchunks = self.data.chunks
+        affine = self.affine
         i = 0
         j = 0
         chunk_boxes = []
@@ -2897,13 +2898,12 @@ class Raster(_RasterBase):
         cols = []
         for row, yc in enumerate(ychunks):
             for col, xc in enumerate(xchunks):
-                y = self.y[i : i + yc]
-                x = self.x[j : j + xc]
+                # Use the raster's transform, rather than the chunk's coords,
+                # so that chunks with a single row or column work.
+                minx, maxy = rowcol_to_xy(i, j, affine, "ul")
+                maxx, miny = rowcol_to_xy(i + yc, j + xc, affine, "ul")
                 j += xc
-                bounds = xr.DataArray(
-                    da.empty((yc, xc)), dims=("y", "x"), coords=(y, x)
-                ).rio.bounds()
-                chunk_boxes.append(box(*bounds))
+                chunk_boxes.append(box(minx, miny, maxx, maxy))
                 rows.append(row)
                 cols.append(col)
             i += yc
-- 
2.43.0


From a01ef7f9fb8cc47cf4dd1f9e7d9c2385f3462ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 30/31] fix: get_chunk_rasters raised for chunks of several
 bands

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index e6ee101..d6e7dd8 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2961,7 +2961,7 @@ class Raster(_RasterBase):
                             x=slice(x, x + xc),
                         )
                         .copy()
-                        .assign_coords(band=[1])
+                        .assign_coords(band=np.arange(bc) + 1)
                     )
                     rs = Raster(ds, _fast_path=True)
                     out[band, row, col] = rs
-- 
2.43.0


From d1ae963f34a56522a909f65e79eadb4d577a5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 31/31] fix: predictions of int models on unmasked rasters did
 not have the declared float dtype

---
 raster_tools/general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index d9021c1..14cca2a 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -415,7 +415,9 @@ def _pred_raster(xarr, model, nbands):
     pred = model.predict(np.nan_to_num(vl_arr))
     if pred.ndim == 1:
         pred = np.expand_dims(pred, 1)
-    return np.moveaxis(pred, -1, 0).reshape(nbands, y, x)
+    pred = np.moveaxis(pred, -1, 0).reshape(nbands, y, x)
+    # Models can return other dtypes, such as int class labels
+    return pred.astype(F64, copy=False)
 
 
 def model_predict_raster(raster, model, n_outputs=1):
-- 
2.43.0

