From 8f790c2f500ee3028659024959751abb17bf5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 01/18] fix: wavedec3 returns the input shape for zero levels

---
 src/ptwt/conv_transform_3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..71affc6 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -140,6 +140,9 @@ def wavedec3(
             }
         )
     result_lst.reverse()
+    if not result_lst:
+        # no transform took place, remove the channel dimension
+        res_lll = res_lll.squeeze(1)
     coeffs: WaveletCoeffNd = res_lll, *result_lst
 
     return _postprocess_coeffs(coeffs, ndim=3, ds=ds, axes=axes)
-- 
2.43.0


From c31eca676e63bf2ede03a007d0807ce0edbbd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 02/18] fix: wrap circular padding correctly when it exceeds
 the signal on one side

---
 src/ptwt/stationary_transform.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..af13c3c 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -25,32 +25,25 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     """Pad a tensor in circular mode, more than once if needed."""
     trailing_dimension = x.shape[-1]
 
-    # if every padding dimension is smaller than or equal the trailing dimension,
-    # we do not need to manually wrap
-    if not any(
+    # wrap whole periods first, and both remainders in a single last step.
+    # This keeps the padded signal periodic and never throws the circular wrap error.
+    while any(
         padding_dimension > trailing_dimension
         for padding_dimension in padding_dimensions
     ):
-        return F.pad(x, padding_dimensions, mode="circular")
-
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
-        # reduce every padding dimension to at maximum trailing dimension width
-        reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
+        whole_periods = [
+            trailing_dimension if padding_dimension > trailing_dimension else 0
             for padding_dimension in padding_dimensions
         ]
-        # pad using reduced dimensions,
-        # which will never throw the circular wrap error
-        x = F.pad(x, reduced_padding_dimensions, mode="circular")
-        # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
+        x = F.pad(x, whole_periods, mode="circular")
         padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
+            padding_dimension - whole_period
+            for padding_dimension, whole_period in zip(
+                padding_dimensions, whole_periods
+            )
         ]
 
-    return x
+    return F.pad(x, padding_dimensions, mode="circular")
 
 
 def swt(
-- 
2.43.0


From d1fa6155d564fd3272f1967b8773127c18512d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 03/18] fix: automatic level counts filter taps for filter
 tensor tuples

---
 src/ptwt/conv_transform_2.py         | 3 ++-
 src/ptwt/conv_transform_3.py         | 5 ++---
 src/ptwt/matmul_transform.py         | 2 +-
 src/ptwt/matmul_transform_2.py       | 2 +-
 src/ptwt/matmul_transform_3.py       | 2 +-
 src/ptwt/separable_conv_transform.py | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..04ee20c 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -135,7 +135,8 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        filt_len = dec_lo.shape[-1]
+        level = pywt.dwt_max_level(min(data.shape[-2:]), filt_len)
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 71affc6..77f9eb8 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -114,9 +114,8 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        filt_len = dec_lo.shape[-1]
+        level = pywt.dwt_max_level(min(data.shape[-3:]), filt_len)
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..b50a646 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -395,7 +395,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             self.level = int(np.log2(length / (wlen - 1)))
             re_build = True
         elif self.level <= 0:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..758400a 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -484,7 +484,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..7430800 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -223,7 +223,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             self.level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..273d9d0 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From cf6cb77e88f4f38399d515f7cb8a1ac4092dec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 04/18] fix: inverse transforms leave the caller's coefficient
 dictionaries alone

---
 src/ptwt/matmul_transform_3.py       | 3 +--
 src/ptwt/separable_conv_transform.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 7430800..5248e44 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,7 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 273d9d0..eaf32d9 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,8 +179,8 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        approx_key = "a" * max(map(len, keys))
+        approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
 
 
-- 
2.43.0


From 5c2473b44c66bfa56d680ed68d33e19703a3ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 05/18] fix: 2d frequency order lists the root node at level
 zero

---
 src/ptwt/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..da41889 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -742,6 +742,8 @@ class WaveletPacket2D(BaseDict):
         wp_natural_path = product(["a", "h", "v", "d"], repeat=level)
 
         def _get_graycode_order(level: int, x: str = "a", y: str = "d") -> list[str]:
+            if level == 0:
+                return [""]
             graycode_order = [x, y]
             for _ in range(level - 1):
                 graycode_order = [x + path for path in graycode_order] + [
-- 
2.43.0


From 9c21c1066081e45686994f48326505c927ddf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 06/18] fix: matrix transforms handle inputs smaller than the
 filter in 2d and 3d

---
 src/ptwt/matmul_transform_2.py | 3 ++-
 src/ptwt/matmul_transform_3.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 758400a..9bbe284 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -557,7 +557,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            height, width = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, width, height).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 5248e44..908d861 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -422,6 +422,9 @@ class MatrixWaverec3(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
+        if level == 0:
+            # nothing was decomposed
+            return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
         if type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
-- 
2.43.0


From d52780711e2d99a125062cf76286627351cf8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 07/18] fix: matrix transforms choose the automatic level anew
 for every input

---
 src/ptwt/matmul_transform.py   | 11 +++++++----
 src/ptwt/matmul_transform_2.py | 11 +++++++----
 src/ptwt/matmul_transform_3.py | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index b50a646..f679fe8 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._auto_level = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -394,11 +395,13 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        if self._auto_level:
             wlen = self.wavelet.dec_len
-            self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+            level = int(np.log2(length / (wlen - 1)))
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 9bbe284..8617cd6 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        self._auto_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -483,13 +484,15 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        if self._auto_level:
             wlen = self.wavelet.dec_len
-            self.level = int(
+            level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 908d861..4c5d906 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._auto_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -222,9 +223,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        if self._auto_level:
             wlen = self.wavelet.dec_len
-            self.level = int(
+            level = int(
                 np.min(
                     [
                         np.log2(depth / (wlen - 1)),
@@ -233,8 +234,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
-- 
2.43.0


From 94ccbb22ba6d2c791e5f4cbb90b629e76aaa2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 08/18] fix: matrix transforms rebuild their matrices when
 dtype or device change

---
 src/ptwt/matmul_transform.py   | 11 +++++++++++
 src/ptwt/matmul_transform_2.py | 11 +++++++++++
 src/ptwt/matmul_transform_3.py | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index f679fe8..400ced5 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -255,6 +255,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
 
         self.input_length: Optional[int] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[torch.Tensor] = []
         self.pad_list: list[bool] = []
         self.padded = False
@@ -404,6 +405,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -551,6 +557,7 @@ class MatrixWaverec(object):
         self.ifwt_matrix_list: list[torch.Tensor] = []
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -673,6 +680,10 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        if self._matrix_kind != (torch_device, torch_dtype):
+            self._matrix_kind = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 8617cd6..1ab738f 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -332,6 +332,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -495,6 +496,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -631,6 +637,7 @@ class MatrixWaverec2(object):
         ] = []
         self.level: Optional[int] = None
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
 
         self.padded = False
 
@@ -777,6 +784,10 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        if self._matrix_kind != (torch_device, torch_dtype):
+            self._matrix_kind = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 4c5d906..3541297 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -124,6 +124,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -240,6 +241,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_kind = (input_signal.device, input_signal.dtype)
+        if self._matrix_kind != matrix_kind:
+            self._matrix_kind = matrix_kind
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -329,6 +335,7 @@ class MatrixWaverec3(object):
         self.orthogonalization = orthogonalization
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_kind: Optional[tuple[torch.device, torch.dtype]] = None
         self.level: Optional[int] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -449,6 +456,10 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        if self._matrix_kind != (torch_device, torch_dtype):
+            self._matrix_kind = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From 445656e3045bc4da0d1744df05cfec62bf96af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 09/18] fix: separable packets name horizontal and vertical
 details like the 2d transform

---
 src/ptwt/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index da41889..da17072 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -602,7 +602,7 @@ class WaveletPacket2D(BaseDict):
             a_coeff, fsdict = fs_dict_data
             return (
                 a_coeff,
-                WaveletDetailTuple2d(fsdict["ad"], fsdict["da"], fsdict["dd"]),
+                WaveletDetailTuple2d(fsdict["da"], fsdict["ad"], fsdict["dd"]),
             )
 
         return _tuple_func
@@ -615,7 +615,7 @@ class WaveletPacket2D(BaseDict):
             # assert for type checking
             assert len(coeffs) == 2
             a, (h, v, d) = coeffs
-            return fsdict_func((a, {"ad": h, "da": v, "dd": d}))
+            return fsdict_func((a, {"da": h, "ad": v, "dd": d}))
 
         return _fsdict_func
 
-- 
2.43.0


From 2e64b8f24d655f0ac247efb2f8264a5251664c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 10/18] fix: cwt computes float32 data in float32 like
 PyWavelets

---
 src/ptwt/continuous_transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..7cb16a9 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -93,8 +93,11 @@ def cwt(
         int_psi = torch.tensor(int_psi, device=data.device)
         x = torch.tensor(x, device=data.device)
 
-    # convert int_psi, x to the same precision as the data
-    # x = np.asarray(x, dtype=data.cpu().numpy().real.dtype)
+    # convert int_psi to the same precision as the data
+    if data.dtype == torch.float32:
+        int_psi = int_psi.to(
+            torch.complex64 if int_psi.is_complex() else torch.float32
+        )
 
     size_scale0 = -1
     fft_data = None
-- 
2.43.0


From 2e8dab9ec89a5232a483707fc97f777107f38b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 11/18] fix: sparse_replace_row accepts matrices that are not
 square

---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..a72d7f3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -233,7 +233,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 46cda98f540b03f64c2f748c7ae2d1525a38fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 12/18] fix: sparse_kron keeps the dtype when a factor has no
 entries

---
 src/ptwt/sparse_math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index a72d7f3..4253cfc 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -67,6 +67,7 @@ def sparse_kron(
             torch.zeros([2, 1]),
             torch.zeros([1]),
             size=output_shape,
+            dtype=torch.promote_types(sparse_tensor_a.dtype, sparse_tensor_b.dtype),
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From b45353facd01c2e0dc68837987fb2c644fd8b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 13/18] fix: sparse_diag accepts diagonals that lie outside the
 matrix

---
 src/ptwt/sparse_math.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 4253cfc..639eb91 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -182,14 +182,9 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    diag_indices = diag_indices[:, mask]
+    diagonal = diagonal[mask]
 
     diag = torch.sparse_coo_tensor(
         diag_indices,
-- 
2.43.0


From b16f9f66127a1e0d66ebd5656fb150c06b2386b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 14/18] fix: detail tuples that do not hold three tensors are
 rejected

---
 src/ptwt/_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..148068d 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -419,6 +419,11 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    "Detail coefficients must be a 3-tuple of tensors, "
+                    f"found {len(element)} entries."
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From 8f9522772daefe73f483608825b712d30acbf64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 15/18] fix: coefficients with different batch dimensions are
 rejected before folding

---
 src/ptwt/_util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 148068d..ebb3419 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -566,7 +566,12 @@ def _preprocess_coeffs(
         coeffs = _coeff_tree_map(coeffs, lambda x: x.unsqueeze(0))
     elif len(ds) > ndim + 1:
         # for all tensors in `coeffs`: fold leading dims to batch dim
-        coeffs = _coeff_tree_map(coeffs, lambda t: _fold_axes(t, ndim)[0])
+        def _fold(tensor: torch.Tensor) -> torch.Tensor:
+            if list(tensor.shape[:-ndim]) != ds[:-ndim]:
+                raise ValueError("coefficients must have the same batch dimensions")
+            return _fold_axes(tensor, ndim)[0]
+
+        coeffs = _coeff_tree_map(coeffs, _fold)
 
     if add_channel_dim:
         # for all tensors in `coeffs`: add channel dim
-- 
2.43.0


From fcf768a07117a97d493683cb66aad2b71cae8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 16/18] fix: separable synthesis rejects malformed detail
 dictionaries

---
 src/ptwt/separable_conv_transform.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index eaf32d9..cda6d16 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -9,6 +9,7 @@ using torch.nn.functional.conv1d and it's transpose.
 
 from __future__ import annotations
 
+from itertools import product
 from typing import Optional, Union
 
 import numpy as np
@@ -177,9 +178,29 @@ def _separable_conv_waverecn(
         raise ValueError("All entries after approximation tensor must be dicts.")
 
     approx: torch.Tensor = coeffs[0]
-    for level_dict in coeffs[1:]:
-        keys = list(level_dict.keys())
-        approx_key = "a" * max(map(len, keys))
+    ndim = approx.dim() - 1
+    approx_key = "a" * ndim
+    detail_keys = set(map("".join, product("ad", repeat=ndim))) - {approx_key}
+    for c_pos, level_dict in enumerate(coeffs[1:]):
+        if level_dict.keys() != detail_keys:
+            raise ValueError(
+                f"Detail dictionaries must have the keys {sorted(detail_keys)}, "
+                f"found {sorted(level_dict)}."
+            )
+        shape = level_dict["d" * ndim].shape
+        if any(coeff.shape != shape for coeff in level_dict.values()):
+            raise ValueError("All coefficients on each level must have the same shape")
+        # a synthesis step leaves at most one sample of padding at the end of an axis
+        surplus = [size - expected for size, expected in zip(approx.shape, shape)]
+        if (
+            len(shape) != approx.dim()
+            or surplus[0] != 0
+            or any(s not in ((0, 1) if c_pos else (0,)) for s in surplus)
+        ):
+            raise ValueError(
+                f"Detail coefficients of shape {tuple(shape)} do not fit the "
+                f"approximation of shape {tuple(approx.shape)}."
+            )
         approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
 
-- 
2.43.0


From dc6fa804b3592be09fb8a1df54450f0f1f95b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 17/18] fix: MatrixWaverec3 rejects coefficients whose sizes do
 not match their level

---
 src/ptwt/matmul_transform_3.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 3541297..ac42518 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -483,6 +483,18 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
+            # the previous level may have been padded by one element per axis.
+            pad_sizes = (0,) if c_pos == 0 else (0, 1)
+            detail_shape = coeff_dict["ddd"].shape
+            if lll.shape[0] != detail_shape[0] or any(
+                a_len - d_len not in pad_sizes
+                for a_len, d_len in zip(lll.shape[1:], detail_shape[1:])
+            ):
+                raise ValueError(
+                    "The shapes of the approximation and the detail coefficients "
+                    "do not match on each level."
+                )
+
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
-- 
2.43.0


From ba23b9e0f7a568b66e31cc8cb35863aa6674770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 18/18] fix: refuse unknown orthogonalization methods for every
 wavelet

orthogonalize() documents a ValueError for an invalid method, but returned
early, without looking at the method, when no row needed orthogonalization
(the Haar wavelet).
---
 src/ptwt/matmul_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 400ced5..d4d1f39 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -155,14 +155,14 @@ def orthogonalize(
     Raises:
         ValueError: If an invalid orthogonalization method is given
     """
+    if not _is_orthogonalize_method_supported(method):
+        raise ValueError(f"Invalid orthogonalization method: {method}")
     to_orthogonalize = _get_to_orthogonalize(matrix, filt_len)
     if len(to_orthogonalize) == 0:
         return matrix
     if method == "qr":
         return _orth_by_qr(matrix, to_orthogonalize)
-    elif method == "gramschmidt":
-        return _orth_by_gram_schmidt(matrix, to_orthogonalize)
-    raise ValueError(f"Invalid orthogonalization method: {method}")
+    return _orth_by_gram_schmidt(matrix, to_orthogonalize)
 
 
 class BaseMatrixWaveDec:
-- 
2.43.0

