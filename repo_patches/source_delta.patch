From 454f8968e25d107b653fed3cda03a01c863e8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:05 +0000
Subject: [PATCH 01/27] fix: keep 64-bit and complex precision in distributed
 reductions

_reduce and _reduce_scatter cast every input to float32, which dropped the imaginary
part of complex tensors and rounded float64 tensors. Promote only half-precision inputs.
---
 torch_harmonics/distributed/primitives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..097475f 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,9 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    # Only half-precision inputs are promoted: wider dtypes must not lose precision (or, for
+    # complex dtypes, their imaginary part) in the reduction.
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +466,7 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From 393cf74139d5dcd3ae5852d068803e81cb47671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:34 +0000
Subject: [PATCH 02/27] fix: polar_halo_exchange with r_lat=0

x[:, :, -0:, :] selects every row, so a zero-width exchange sent whole blocks into empty
receive buffers.
---
 torch_harmonics/distributed/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index 097475f..34430e9 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -1051,7 +1051,7 @@ class _PolarHaloExchangeFn(torch.autograd.Function):
 
         # setup send buffers
         send_top = x[:, :, :r_lat, :].contiguous()  # top r_lat rows → rank-1
-        send_bot = x[:, :, -r_lat:, :].contiguous()  # bottom r_lat rows → rank+1
+        send_bot = x[:, :, H - r_lat :, :].contiguous()  # bottom r_lat rows → rank+1
 
         # setup recv buffers
         recv_top = torch.zeros(B, C, r_lat, W, device=device, dtype=dtype)
-- 
2.43.0


From 624da6371112ff9d3963db6eb5edd3a3217c187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:41 +0000
Subject: [PATCH 03/27] fix: reference DISCO contraction compares nlon_in with
 nlon_out

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0


From 0beebe6c8e8e5c4f974f6850f01c4a525d662fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:41 +0000
Subject: [PATCH 04/27] fix: Zernike basis with no point inside the cutoff

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..609668e 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -434,7 +434,7 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        max_bound = bound.max().item() if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From ccc3c8808adc1442cdd30cff33d907cf95274a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:06 +0000
Subject: [PATCH 05/27] fix: DISCO row offsets separate kernels with the same
 output latitude and allow an empty filter

---
 torch_harmonics/disco/optimized/disco_helpers.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..58736f5 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -81,11 +81,12 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] val_sort;
 
     // compute rows offsets
-    nrows = 1;
+    nrows = (nnz > 0) ? 1 : 0;
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        // a row ends where either the output latitude or the kernel index changes
+        if (row_h[i - 1] == row_h[i] && ker_h[i - 1] == ker_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From c850d6c32995caac487f479ab2932bdd97c2d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:02 +0000
Subject: [PATCH 06/27] fix: distributed DISCO filter split with a single local
 entry

---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..62c3043 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(-1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 9448b0119c98b04a31b4d3d59f1127135ce3ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 07/27] fix: DistributedQuadratureS2 supports the documented
 equiangular-trapezoidal grid

---
 torch_harmonics/distributed/distributed_quadrature.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..74bc601 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -33,7 +33,7 @@ from typing import Optional, Tuple
 
 import torch
 
-from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights
+from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights, trapezoidal_weights
 
 from .primitives import compute_split_shapes, reduce_from_azimuth_region, reduce_from_polar_region, split_tensor_along_dim
 from .utils import azimuth_group_rank, azimuth_group_size, polar_group_rank, polar_group_size
@@ -102,6 +102,11 @@ class DistributedQuadratureS2(torch.nn.Module):
             dlambda = 2 * torch.pi / img_shape[1]
             quad_weight = dlambda * weights.unsqueeze(1)
             quad_weight = quad_weight.tile(1, img_shape[1])
+        elif self.grid == "equiangular-trapezoidal":
+            _, weights = trapezoidal_weights(img_shape[0], -1, 1)
+            dlambda = 2 * torch.pi / img_shape[1]
+            quad_weight = dlambda * weights.unsqueeze(1)
+            quad_weight = quad_weight.tile(1, img_shape[1])
         else:
             raise (ValueError("Unknown quadrature mode"))
 
-- 
2.43.0


From 0f8fcdb2f5cffb2c5444fb7457d0556a6d8477d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 08/27] fix: distributed spectral bias with non-float32 inputs

---
 .../distributed_spectral_convolution.py        | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..8ba88e0 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,16 +195,18 @@ class DistributedSpectralConvS2(nn.Module):
     def forward(self, x):
         dtype = x.dtype
 
-        # compute integral in case if bias is used
-        if hasattr(self, "spectral_bias"):
-            integral = self.quadrature(x)
-            if self.comm_size_polar > 1:
-                integral = copy_to_polar_region(integral)
-            if self.comm_size_azimuth > 1:
-                integral = copy_to_azimuth_region(integral)
-
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
             x = x.to(torch.float32)
+
+            # compute integral in case if bias is used
+            if hasattr(self, "spectral_bias"):
+                integral = self.quadrature(x)
+                if self.comm_size_polar > 1:
+                    integral = copy_to_polar_region(integral)
+                if self.comm_size_azimuth > 1:
+                    integral = copy_to_azimuth_region(integral)
+
+            # perform SHT
             x = self.sht(x).contiguous()
 
         # store the shapes
-- 
2.43.0


From 36151c0e5aba93a2b205c6fe0279ea227e0ce4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 09/27] fix: bilinear-spherical resampling between decreasing
 angles and its gradient between equal angles

---
 .../distributed/distributed_resample.py            | 14 ++++++++++----
 torch_harmonics/resample.py                        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..7c27659 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            # linear fallback for small angles; the denominator is masked so that its gradient stays finite
+            use_slerp = torch.abs(somega) > 1e-4
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +207,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            # linear fallback for small angles; the denominator is masked so that its gradient stays finite
+            use_slerp = torch.abs(somega) > 1e-4
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..cd7ee31 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            # linear fallback for small angles; the denominator is masked so that its gradient stays finite
+            use_slerp = torch.abs(somega) > 1e-4
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +215,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            # linear fallback for small angles; the denominator is masked so that its gradient stays finite
+            use_slerp = torch.abs(somega) > 1e-4
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From 9e4b00f89ade7993c851516365ff07ecaf647f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:49 +0000
Subject: [PATCH 10/27] fix: compute the vector SHT degree normalisation in
 float64

The factor 1/(l(l+1)) was formed from an integer arange and therefore in float32, which limited
double precision vector analysis (serial and distributed) to single precision accuracy.
---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From 28e59cbf1b48d5ada065c05337f775b156d62083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 11/27] fix: QuadratureS2 returns the documented shape for
 inputs with fewer than two leading dimensions

The (1, 1, nlat, nlon) weight buffer broadcast against (nlat, nlon) or (C, nlat, nlon) inputs and
prepended singleton dimensions to the result, although the integral is documented to have the
shape of the input with its last two dimensions removed.
---
 torch_harmonics/distributed/distributed_quadrature.py | 2 +-
 torch_harmonics/quadrature.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 74bc601..00cce93 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -135,7 +135,7 @@ class DistributedQuadratureS2(torch.nn.Module):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
             quad = reduce_from_polar_region(quad)
         if self.comm_size_azimuth > 1:
diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index d998189..828b3ef 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -458,6 +458,6 @@ class QuadratureS2(torch.nn.Module):
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
         return quad
-- 
2.43.0


From b27617fe83b54ddfaa3c7445fbee18d486acdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:21 +0000
Subject: [PATCH 12/27] fix: reference attention returns NaN when all logits
 are very negative

The running maximum of the online softmax started at zero, so every weight
underflowed when all logits of a neighborhood were far below zero.
---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From 9508f6af1ac9e47381a7d65877c74fae1b227db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:19 +0000
Subject: [PATCH 13/27] fix: neighborhood attention module cast to another
 dtype

---
 torch_harmonics/attention/optimized/attention_optimized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torch_harmonics/attention/optimized/attention_optimized.py b/torch_harmonics/attention/optimized/attention_optimized.py
index a07d4d5..81293f2 100644
--- a/torch_harmonics/attention/optimized/attention_optimized.py
+++ b/torch_harmonics/attention/optimized/attention_optimized.py
@@ -252,6 +252,9 @@ if optimized_kernels_is_available():
         vw = vw.contiguous()
         qw = qw.contiguous()
 
+        # the kernels read the quadrature weights as fp32, also when the module was cast
+        quad_weights = quad_weights.to(torch.float32)
+
         return attention_kernels.forward.default(kw, vw, qw, quad_weights, col_idx, row_off, nh, nlon_in, nlat_out, nlon_out)
 
     @torch.library.register_fake("attention_kernels::_neighborhood_s2_attention_optimized")
@@ -285,6 +288,7 @@ def _neighborhood_s2_attention_bwd_optimized(ctx, grad_output):
     vw = vw.contiguous()
     qw = qw.contiguous()
     grad_output = grad_output.contiguous()
+    quad_weights = quad_weights.to(torch.float32)
 
     dkw, dvw, dqw = attention_kernels.backward.default(kw, vw, qw, grad_output, quad_weights, col_idx, row_off, nh, nlon_in, nlat_out, nlon_out)
 
-- 
2.43.0


From 0267847a52e7ec9120bef7069a27875f1d996030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:14 +0000
Subject: [PATCH 14/27] fix: resampling from a grid with a single longitude
 returned NaN

---
 torch_harmonics/distributed/distributed_resample.py | 2 +-
 torch_harmonics/resample.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 7c27659..88d30bd 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -144,7 +144,7 @@ class DistributedResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index cd7ee31..b2f5fcb 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -168,7 +168,7 @@ class ResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
-- 
2.43.0


From 1fae9d459b7611e8fbbe77b9b2336dc6503a4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 15/27] fix: random field spectrum only float32 accurate for
 float64 fields

---
 torch_harmonics/random_fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/random_fields.py b/torch_harmonics/random_fields.py
index 0d12487..9fab91e 100644
--- a/torch_harmonics/random_fields.py
+++ b/torch_harmonics/random_fields.py
@@ -104,10 +104,10 @@ class GaussianRandomFieldS2(torch.nn.Module):
         mmax = self.isht.mmax
 
         # Square root of the eigenvalues of C.
-        sqrt_eig = torch.as_tensor([j * (j + 1) for j in range(lmax)]).view(lmax, 1).repeat(1, mmax)
+        sqrt_eig = torch.as_tensor([j * (j + 1) for j in range(lmax)], dtype=torch.float64).view(lmax, 1).repeat(1, mmax)
         sqrt_eig = torch.tril(sigma * (((sqrt_eig / radius**2) + tau**2) ** (-alpha / 2.0)))
         sqrt_eig[0, 0] = 0.0
-        sqrt_eig = sqrt_eig.unsqueeze(0)
+        sqrt_eig = sqrt_eig.unsqueeze(0).to(dtype=dtype)
         self.register_buffer("sqrt_eig", sqrt_eig)
 
         # Save mean and var of the standard Gaussian.
-- 
2.43.0


From cc3f86bbb7c84a6d5c543306f29ea6d50bc1b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 16/27] fix: Legendre tables cached by identity of a mutable
 tensor went stale after in-place modification

---
 torch_harmonics/legendre.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/torch_harmonics/legendre.py b/torch_harmonics/legendre.py
index 13f8c33..59cf63c 100644
--- a/torch_harmonics/legendre.py
+++ b/torch_harmonics/legendre.py
@@ -34,8 +34,6 @@ from typing import Optional
 
 import torch
 
-from torch_harmonics.cache import lru_cache
-
 
 def clm(l: int, m: int) -> float:
     """Defines the normalization factor to orthonormalize the Spherical Harmonics."""
@@ -116,7 +114,6 @@ def legpoly(mmax: int, lmax: int, x: torch.Tensor, norm: Optional[str] = "ortho"
     return vdm
 
 
-@lru_cache(typed=True, copy=True)
 @torch.no_grad()
 def _precompute_legpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[str] = "ortho", inverse: Optional[bool] = False, csphase: Optional[bool] = True) -> torch.Tensor:
     r"""
@@ -146,7 +143,6 @@ def _precompute_legpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[st
     return legpoly(mmax, lmax, torch.cos(t), norm=norm, inverse=inverse, csphase=csphase)
 
 
-@lru_cache(typed=True, copy=True)
 @torch.no_grad()
 def _precompute_dlegpoly(mmax: int, lmax: int, t: torch.Tensor, norm: Optional[str] = "ortho", inverse: Optional[bool] = False, csphase: Optional[bool] = True) -> torch.Tensor:
     r"""
-- 
2.43.0


From 3e0af106ae4311cbbe6abcbac0cc9fc188989071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:30 +0000
Subject: [PATCH 17/27] fix: neighborhood attention module could not be copied
 or pickled

---
 torch_harmonics/attention/attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..344dd2b 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -445,10 +445,10 @@ class NeighborhoodAttentionS2(nn.Module):
             self.q_norm_weights = None
             self.k_norm_weights = None
 
-        if self.optimized_kernel:
-            self.attention_handle = _neighborhood_s2_attention_optimized
-        else:
-            self.attention_handle = _neighborhood_s2_attention_torch
+    @property
+    def attention_handle(self):
+        # resolved on access: custom ops cannot be stored on the module without making it impossible to copy or pickle
+        return _neighborhood_s2_attention_optimized if self.optimized_kernel else _neighborhood_s2_attention_torch
 
     def extra_repr(self):
         return f"in_shape={(self.nlat_in, self.nlon_in)}, out_shape={(self.nlat_out, self.nlon_out)}, in_channels={self.in_channels}, out_channels={self.out_channels}, k_channels={self.k_channels}, theta_cutoff={self.theta_cutoff}"
-- 
2.43.0


From 2276b678c85b15b25672e59a2cd5193c90e3d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:42 +0000
Subject: [PATCH 18/27] fix: return a contiguous tensor from the torch
 attention op, as its fake version promises

---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 1f7dbe7..f79c9d9 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -442,7 +442,8 @@ def _neighborhood_s2_attention_torch(
 
     # back to packed NHWC: (B*nh, C, H, W) -> (B, H, W, nh*C)
     _, C, H, W = output.shape
-    output = output.reshape(B, nh, C, H, W).permute(0, 3, 4, 1, 2).reshape(B, H, W, nh * C)
+    # contiguous, as register_fake below promises: for nh == 1 the reshape is only a view
+    output = output.reshape(B, nh, C, H, W).permute(0, 3, 4, 1, 2).reshape(B, H, W, nh * C).contiguous()
 
     return output.to(dtype=inp_dtype)
 
-- 
2.43.0


From bb09f84e4e3f0151bb448ebb3fd9e332511f9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:43 +0000
Subject: [PATCH 19/27] fix: DISCO convolutions refuse a field that is not on
 their input grid

The optimized contractions index the field with the extents psi was built for and
never compare them with the tensor: a field with fewer latitudes or longitudes is
read out of bounds, and one with more, or with latitude and longitude swapped, gives
a result without an error. The torch reference only notices when the product of the
extents differs.
---
 torch_harmonics/disco/_disco_utils.py | 12 ++++++++++++
 torch_harmonics/disco/convolution.py  |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/_disco_utils.py b/torch_harmonics/disco/_disco_utils.py
index 4a3d29e..7f1cecc 100644
--- a/torch_harmonics/disco/_disco_utils.py
+++ b/torch_harmonics/disco/_disco_utils.py
@@ -42,6 +42,18 @@ def _compute_dtype(dtype: torch.dtype) -> torch.dtype:
     return dtype
 
 
+# input validation: the contractions index the field with the extents psi was built for,
+# so a field on another grid would be read out of bounds (or misread) instead of failing.
+def _check_input_shape(x: torch.Tensor, channels: int, nlat: int, nlon: int) -> None:
+    """Check that a field is ``(batch, channels, nlat, nlon)``, with a dynamo-traceable error message."""
+    channels, nlat, nlon = int(channels), int(nlat), int(nlon)
+    # rank first: unlike the extents it is static under dynamo
+    torch._check(x.dim() == 4, lambda: f"Expected an input of shape (batch, {channels}, {nlat}, {nlon})")
+    torch._check(x.shape[1] == channels, lambda: f"Expected an input of shape (batch, {channels}, {nlat}, {nlon})")
+    torch._check(x.shape[2] == nlat, lambda: f"Expected an input of shape (batch, {channels}, {nlat}, {nlon})")
+    torch._check(x.shape[3] == nlon, lambda: f"Expected an input of shape (batch, {channels}, {nlat}, {nlon})")
+
+
 # sparse-psi helper used by both the torch reference kernels (in kernels_torch/)
 # and the optimized custom_op path (in optimized/).
 def _get_psi(
diff --git a/torch_harmonics/disco/convolution.py b/torch_harmonics/disco/convolution.py
index 04fe534..b6d0d15 100644
--- a/torch_harmonics/disco/convolution.py
+++ b/torch_harmonics/disco/convolution.py
@@ -42,7 +42,7 @@ from torch_harmonics.cache import lru_cache
 from torch_harmonics.filter_basis import FilterBasis, get_filter_basis
 from torch_harmonics.quadrature import precompute_latitudes, precompute_longitudes
 
-from ._disco_utils import _get_psi
+from ._disco_utils import _check_input_shape, _get_psi
 from .kernels_torch.disco_torch import _disco_s2_contraction_torch, _disco_s2_transpose_contraction_torch
 from .optimized.disco_optimized import (
     _build_kernel_split_csr,
@@ -692,6 +692,8 @@ class DiscreteContinuousConvS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        _check_input_shape(x, self.groups * self.groupsize, self.nlat_in, self.nlon_in)
+
         weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
         kpacked_dtype = x.dtype
         if x.is_cuda and torch.is_autocast_enabled("cuda"):
@@ -986,6 +988,8 @@ class DiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        _check_input_shape(x, self.groups * self.groupsize, self.nlat_in, self.nlon_in)
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From d798b605c5dccbf6c6ccdf925e8ed09032dff958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:43 +0000
Subject: [PATCH 20/27] fix: AttentionS2 checks the grid extents of its inputs

Only the number of points was checked (by the shape of the log-weights), so a field
with latitude and longitude swapped was accepted and attended with the quadrature
weights of other points.
---
 torch_harmonics/attention/attention.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 344dd2b..3ce9717 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -202,6 +202,12 @@ class AttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_extent(query, -2, self.nlat_out, "query latitudes")
+        _check_extent(query, -1, self.nlon_out, "query longitudes")
+        _check_extent(key, -2, self.nlat_in, "key latitudes")
+        _check_extent(key, -1, self.nlon_in, "key longitudes")
+        _check_extent(value, -2, self.nlat_in, "value latitudes")
+        _check_extent(value, -1, self.nlon_in, "value longitudes")
 
         # perform QKV projections
         query = nn.functional.conv2d(query, self.q_weights, bias=self.q_bias)
-- 
2.43.0


From f64270c17e6d64bac6999fe77977865b217bdfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:00 +0000
Subject: [PATCH 21/27] fix: NeighborhoodAttentionS2 refuses query, key and
 value of different batch sizes

The optimized kernels take the batch size from the keys and index the queries and
values with it: a smaller batch there was read out of bounds, a larger one dropped.
---
 torch_harmonics/attention/_attention_utils.py | 13 +++++++++++++
 torch_harmonics/attention/attention.py        |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/_attention_utils.py b/torch_harmonics/attention/_attention_utils.py
index 3b0d7eb..f0f609e 100644
--- a/torch_harmonics/attention/_attention_utils.py
+++ b/torch_harmonics/attention/_attention_utils.py
@@ -64,6 +64,19 @@ def _check_extent(tensor: torch.Tensor, dim: int, expected: int, name: str) -> N
     torch._check(tensor.shape[dim] == expected, lambda: f"Expected {name} shape[{dim}] == {expected}")
 
 
+def _check_batches_match(tensors) -> None:
+    """
+    Check that every tensor shares the first one's batch size.
+
+    The kernels take the batch size from one of the tensors and index all of them
+    with it, so a smaller batch elsewhere is read out of bounds.
+    """
+
+    # the extents may be SymInts under dynamic shapes, so the message names no value
+    for tensor in tensors[1:]:
+        torch._check(tensor.shape[0] == tensors[0].shape[0], lambda: "Expected query, key and value to have the same batch size")
+
+
 def _check_dtypes_match(tensors) -> None:
     """
     Check that every tensor shares the first one's dtype.
diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 3ce9717..96baaa1 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 import torch.nn.functional as F
 from attention_helpers import optimized_kernels_is_available
 
-from torch_harmonics.attention._attention_utils import _check_dtypes_match, _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batches_match, _check_dtypes_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.kernels_torch.attention_torch import _neighborhood_s2_attention_torch
 from torch_harmonics.attention.optimized.attention_optimized import _neighborhood_s2_attention_optimized
@@ -492,6 +492,7 @@ class NeighborhoodAttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_batches_match((query, key, value))
         _check_extent(query, -2, self.nlat_out, "query latitudes")
         _check_extent(query, -1, self.nlon_out, "query longitudes")
         _check_extent(key, -2, self.nlat_in, "key latitudes")
-- 
2.43.0


From 8322f8db25a5477d1efd5ceaae4dea334c2137ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:10 +0000
Subject: [PATCH 22/27] fix: ResampleS2 refuses a field that is not on its
 input grid

A field with more latitudes or longitudes than the input grid was resampled from a
part of it, and the identity resampling passed any field through.
---
 torch_harmonics/resample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index b2f5fcb..2f87736 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -240,6 +240,12 @@ class ResampleS2(nn.Module):
         torch.Tensor
             Resampled signal of shape ``(..., nlat_out, nlon_out)``.
         """
+        # the indices below address the input grid: a larger field would be resampled from a part of it
+        nlat_in, nlon_in = self.nlat_in, self.nlon_in
+        torch._check(x.dim() >= 2, lambda: f"Expected an input of shape (..., {nlat_in}, {nlon_in})")
+        torch._check(x.shape[-2] == nlat_in, lambda: f"Expected an input of shape (..., {nlat_in}, {nlon_in})")
+        torch._check(x.shape[-1] == nlon_in, lambda: f"Expected an input of shape (..., {nlat_in}, {nlon_in})")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From ab7bfd6fa263d0ededb2e01a6e2744bc430794fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 23/27] fix: distributed DISCO convolutions refuse a field that
 is not their local shard

The same contractions as in the serial layers, with the same missing check: handing
the whole field to every polar rank was accepted and gave a wrong result.
---
 torch_harmonics/distributed/distributed_convolution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index 62c3043..e7da102 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -35,7 +35,7 @@ from typing import Optional, Tuple, Union
 import torch
 from disco_helpers import optimized_kernels_is_available, pack_psi_dense, preprocess_psi
 
-from torch_harmonics.disco._disco_utils import _get_psi
+from torch_harmonics.disco._disco_utils import _check_input_shape, _get_psi
 from torch_harmonics.disco.convolution import (
     DiscreteContinuousConv,
     _kpacked_device_supported_for_tensor,
@@ -374,6 +374,9 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         return result
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+
+        _check_input_shape(x, self.groups * self.groupsize, self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
+
         if self.fused:
             # reordered a2a: einsum-first on the local channel shard via the
             # fused conv op (K-expanded recomputed in backward, not saved).
@@ -595,6 +598,8 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
 
+        _check_input_shape(x, self.groups * self.groupsize, self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From 156154a3c961ba66be0fe2f3011703d131e70324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 24/27] fix: DistributedResampleS2 refuses a field that is not
 its local shard

As in ResampleS2, a larger field was resampled from a part of it, and the identity
resampling passed any field through.
---
 torch_harmonics/distributed/distributed_resample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 88d30bd..4c1ae39 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -218,6 +218,11 @@ class DistributedResampleS2(nn.Module):
 
     def forward(self, x: torch.Tensor):
 
+        # the transposes and indices below address this rank's shard of the input grid
+        nlat_in, nlon_in = self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth]
+        torch._check(x.shape[-2] == nlat_in, lambda: f"Expected a local input of shape (..., {nlat_in}, {nlon_in})")
+        torch._check(x.shape[-1] == nlon_in, lambda: f"Expected a local input of shape (..., {nlat_in}, {nlon_in})")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From 0f7f9a49c16fd01aa16342713a471f78e9d898e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:43 +0000
Subject: [PATCH 25/27] fix: distributed DISCO convolutions refuse indivisible
 longitudes like the serial ones

The layer was built, and failed (or not) only when called.
---
 torch_harmonics/distributed/distributed_convolution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index e7da102..c6dd2fd 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -225,6 +225,10 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        # make sure the p-shift works by checking that longitudes are divisible
+        if self.nlon_in % self.nlon_out != 0:
+            raise ValueError(f"nlon_in ({self.nlon_in}) must be an integer multiple of nlon_out ({self.nlon_out}) for the DISCO p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
@@ -509,6 +513,10 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        # make sure the p-shift works by checking that longitudes are divisible
+        if self.nlon_out % self.nlon_in != 0:
+            raise ValueError(f"nlon_out ({self.nlon_out}) must be an integer multiple of nlon_in ({self.nlon_in}) for the DISCO transpose p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
-- 
2.43.0


From 629d457990e36725dd8d67036282f5909d5d50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:45 +0000
Subject: [PATCH 26/27] fix: SpectralConvS2 refuses a single channel where it
 expects several

The contraction broadcast one channel over all input channels without an error.
---
 torch_harmonics/distributed/distributed_spectral_convolution.py | 2 ++
 torch_harmonics/spectral_convolution.py                         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 8ba88e0..9b9e738 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -211,6 +211,8 @@ class DistributedSpectralConvS2(nn.Module):
 
         # store the shapes
         B, C, H, W = x.shape
+        in_channels = self.in_channels
+        torch._check(C == in_channels, lambda: f"Expected {in_channels} input channels")
 
         # deal with bias
         if hasattr(self, "spectral_bias"):
diff --git a/torch_harmonics/spectral_convolution.py b/torch_harmonics/spectral_convolution.py
index abeffd3..079108b 100644
--- a/torch_harmonics/spectral_convolution.py
+++ b/torch_harmonics/spectral_convolution.py
@@ -228,6 +228,8 @@ class SpectralConvS2(nn.Module):
 
         # store the shapes
         B, C, H, W = x.shape
+        in_channels = self.in_channels
+        torch._check(C == in_channels, lambda: f"Expected {in_channels} input channels")
 
         # deal with bias
         if hasattr(self, "spectral_bias"):
-- 
2.43.0


From 24ef498070ea7dfd5746e01ecf0df38afb79501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:49 +0000
Subject: [PATCH 27/27] fix: DistributedNeighborhoodAttentionS2 refuses query,
 key and value of different batch sizes

The ring exchange and its kernels take the batch size from the keys.
---
 torch_harmonics/distributed/distributed_attention.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..4868557 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 from attention_helpers import optimized_kernels_is_available
 
 from torch_harmonics.attention import attention_kernels
-from torch_harmonics.attention._attention_utils import _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batches_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.attention import NeighborhoodAttentionS2
 from torch_harmonics.distributed._amp_utils import _cast_to_autocast_dtype, _custom_setup_context
@@ -1171,6 +1171,7 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
         _check_ndim(query, 4, "query")
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
+        _check_batches_match((query, key, value))
         _check_extent(query, -2, self.nlat_out_local, "query latitudes")
         _check_extent(query, -1, self.nlon_out_local, "query longitudes")
         _check_extent(key, -2, self.nlat_in_local, "key latitudes")
-- 
2.43.0

