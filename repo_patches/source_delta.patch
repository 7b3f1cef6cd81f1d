From 895b7c25e28b9f2c693b5662ec48b09fe543c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 01/36] fix: lower_bound 'disconnected' gradient is the masked
 upstream gradient

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..5bc890f 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return ((x > bound) * y), None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
-- 
2.43.0


From 4db9fbbe8cde15bd4e3e16d3f7befc362a682fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 02/36] fix: lower_bound accepts a float bound as documented

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index 5bc890f..3bd43af 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From f3fa8e42cca67ea242da8199558acb626c8ea42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 03/36] fix: log_survival_function of a non-normal distribution
 is log(1 - cdf(x))

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From 95d445bda40a3b266909479a4341c21959d22b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 04/36] fix: log_ndtr evaluates the normal CDF in the precision
 of its input

---
 neuralcompression/functional/_log_ndtr.py |  6 +++---
 neuralcompression/functional/_ndtr.py     | 26 +++++++++++++----------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..5a5ac14 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -8,7 +8,7 @@ import math
 import torch
 from torch import Tensor
 
-from ._ndtr import ndtr
+from ._ndtr import _ndtr
 
 
 def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
@@ -48,10 +48,10 @@ def log_ndtr(x: Tensor) -> Tensor:
 
     return torch.where(
         x > n,
-        torch.log1p(-ndtr(-x)),
+        torch.log1p(-_ndtr(-x)),
         torch.where(
             x >= m,
-            torch.log(ndtr(x)),
+            torch.log(_ndtr(x)),
             _log_ndtr_asymptotic_series(x),
         ),
     )
diff --git a/neuralcompression/functional/_ndtr.py b/neuralcompression/functional/_ndtr.py
index 6cb2bce..8b9203b 100644
--- a/neuralcompression/functional/_ndtr.py
+++ b/neuralcompression/functional/_ndtr.py
@@ -9,17 +9,8 @@ import torch
 from torch import Tensor
 
 
-def ndtr(x: Tensor) -> Tensor:
-    """The normal cumulative distribution function (CDF).
-
-    Args:
-        x: the input tensor.
-
-    Returns:
-        the area under the standard Normal probability density function (PDF),
-        integrated from negative infinity to :math:`x`.
-    """
-    x = x.to(torch.float) * math.sqrt(0.5)
+def _ndtr(x: Tensor) -> Tensor:
+    x = x * math.sqrt(0.5)
 
     y = 0.5 * torch.erfc(abs(x))
 
@@ -32,3 +23,16 @@ def ndtr(x: Tensor) -> Tensor:
             y,
         ),
     )
+
+
+def ndtr(x: Tensor) -> Tensor:
+    """The normal cumulative distribution function (CDF).
+
+    Args:
+        x: the input tensor.
+
+    Returns:
+        the area under the standard Normal probability density function (PDF),
+        integrated from negative infinity to :math:`x`.
+    """
+    return _ndtr(x.to(torch.float))
-- 
2.43.0


From dcb3edafddaf0be64ffe300774d5366b6320fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 05/36] fix: log_ndtr asymptotic series uses the double
 factorials (2n - 1)!!

---
 neuralcompression/functional/_log_ndtr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 5a5ac14..ba9c69e 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -19,9 +19,9 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     multiplier = -1
 
     for n in range(1, series_order + 1):
+        double_fac *= 2 * n - 1
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
-- 
2.43.0


From 7db97eef825cc9864088d15000f5ea187b4a7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 06/36] fix: UniformNoise passes batch and event shape in the
 right order

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..ce2871b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From 07d5738eab5903fc8120c9a6d77980dd0b05e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 07/36] fix: log_cdf of a Uniform distribution uses its CDF

---
 neuralcompression/functional/_log_cdf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..cfc5b39 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -5,7 +5,7 @@
 
 import torch
 from torch import Tensor
-from torch.distributions import Distribution, Normal, Uniform
+from torch.distributions import Distribution, Normal
 
 from ._log_ndtr import log_ndtr
 
@@ -30,7 +30,4 @@ def log_cdf(
 
         return log_ndtr(standardized)
 
-    if isinstance(distribution, Uniform):
-        return torch.log(x)
-
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 669bf21d9386474c756e9f8150a026d459c44e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 08/36] fix: UniformNoise.rsample draws independent noise for
 every element

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index ce2871b..a87e0b5 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape).to(a)
 
         return a + b
 
-- 
2.43.0


From 00e222b274901e77be68565b9cd90971bb79653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 09/36] fix: QBottleneck.reset_hits zeroes the codebook hit
 counters

---
 neuralcompression/layers/_q_bottleneck.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..e4d394c 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,9 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for name, codebook_hits in self.named_buffers():
+            if name.startswith("codebook_hits"):
+                codebook_hits.zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 00dee4f6647a009471ce52e5018eb198df8ef103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 10/36] fix: DVC.decompress derives latent sizes with the
 encoder's rounding (odd level sizes)

---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From 9665d19e39cc0daba1135fdb2582909e5f59ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:56 +0000
Subject: [PATCH 11/36] fix: _ClampMin.backward returns one gradient per
 forward input

---
 neuralcompression/layers/_simplified_gdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_simplified_gdn.py b/neuralcompression/layers/_simplified_gdn.py
index 8e1e0d1..5af38f7 100644
--- a/neuralcompression/layers/_simplified_gdn.py
+++ b/neuralcompression/layers/_simplified_gdn.py
@@ -22,7 +22,7 @@ class _ClampMin(torch.autograd.Function):
     def backward(ctx, grad):
         data, min = ctx.saved_tensors
 
-        return grad * ((data >= min) | (grad < 0.0))
+        return grad * ((data >= min) | (grad < 0.0)), None
 
 
 def _clamp_min(image: Tensor, min: float) -> Tensor:
-- 
2.43.0


From 92c57f4f6569944dc3631a0da8a82700a3ec506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:56 +0000
Subject: [PATCH 12/36] fix: information_content(reduction='batch_el') accepts
 non-contiguous probabilities

---
 neuralcompression/functional/_information_content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..28f3a89 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,7 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = torch.log(probabilities).reshape(probabilities.shape[0], -1).sum(dim=-1)
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From 1f4eb84ae44234783b45d94325fa68e0b7684f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:48 +0000
Subject: [PATCH 13/36] fix: KernelInceptionDistance.compute uses its subsets,
 subset_size and kernel parameters

---
 neuralcompression/metrics/_kid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..6494839 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,16 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            # torch-fidelity < 0.4
+            kid_degree=self.degree,
+            kid_gamma=self.gamma,
+            kid_coef0=self.coef,
+            # torch-fidelity >= 0.4
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From efe045ae652490361357c0cae7eae276f9061788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:48 +0000
Subject: [PATCH 14/36] fix: calc_psnr_numpy does not wrap around on uint8
 images

---
 neuralcompression/metrics/_calc_psnr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..6acfedc 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -40,5 +40,6 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
-    mse = np.mean((image - reference) ** 2)
+    # unsigned integer images would wrap around in the subtraction
+    mse = np.mean((image.astype(np.float64) - reference.astype(np.float64)) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From 7b9eda233e2f5bb4c028e6e61cee169666fd16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 15/36] fix: table index of a value above the prior grid is its
 last entry, not its first

---
 projects/torch_vct/neural/bottlenecks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/bottlenecks.py b/projects/torch_vct/neural/bottlenecks.py
index 27e5a2f..2e6ce95 100644
--- a/projects/torch_vct/neural/bottlenecks.py
+++ b/projects/torch_vct/neural/bottlenecks.py
@@ -274,8 +274,9 @@ class ContinuousIndexedGaussianConditional(EntropyModel):
 
     @staticmethod
     def _find_idx_of_first_smallest(inputs: Tensor, grid: Tensor) -> torch.IntTensor:
+        # entries above the grid take its last (largest) entry
         return torch.max(
-            (inputs.unsqueeze(-1) <= grid.view([1] * inputs.dim() + [len(grid)])),
+            (inputs.unsqueeze(-1).clamp(max=grid[-1]) <= grid.view([1] * inputs.dim() + [len(grid)])),
             dim=-1,
         ).indices
 
-- 
2.43.0


From 917446c66647c8fe75aff88721ae0a8e273fcba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 16/36] fix: VCT compress without decoding returns the latent
 the decoder recovers

---
 projects/torch_vct/neural/entropy_model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..73e8794 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -503,10 +503,17 @@ class VCTEntropyModel(nn.Module):
         # Count bits in each sequence, each string is a list of len 1
         bits = [sum(len(string[0]) * 8 for string in strings)]
 
+        # what the decoder recovers: latents quantized around their rounded means
+        dequantized = self.patcher.unpatch(
+            x_patched=(quantized, (n_h, n_w)),
+            crop=(H, W),
+            channels_last=True,
+        )
+
         # decoding:
         if not run_decode:
             # For performance, since coding is lossless, real decode can be skipped
-            decoded = torch.round(latent_unquantized)
+            decoded = dequantized
         else:
             use_output_from_encode = True
             decoded = self._decode(
@@ -517,11 +524,6 @@ class VCTEntropyModel(nn.Module):
                 encode_scales=scales,
                 use_output_from_encode=use_output_from_encode,
             )
-            dequantized = self.patcher.unpatch(
-                x_patched=(quantized, (n_h, n_w)),
-                crop=(H, W),
-                channels_last=True,
-            )
             if use_output_from_encode:
                 # This should pass if `use_output_from_encode=True`
                 assert (decoded == dequantized).all(), "Something went wrong!"
-- 
2.43.0


From 7656a799822b892bfff84bd0839f6407b26b33b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 17/36] fix: VCT raises on an unsupported context length
 instead of using too short a context

---
 projects/torch_vct/neural/entropy_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index 73e8794..2b13431 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -327,7 +327,7 @@ class VCTEntropyModel(nn.Module):
                     else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]
                 )
             else:
-                ValueError(f"Unsupported context_len={self.context_len}")
+                raise ValueError(f"Unsupported context_len={self.context_len}")
         return encoded_seqs
 
     def forward(
-- 
2.43.0


From 21dd4418a2184db2897e467053f79f2fd430771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 18/36] fix: VCTPipeline hands its context_len to the entropy
 model

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From 0fb348c0fe5ceb2869f3b2dc1c6d520eddad434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 19/36] fix: ConvGDNSynthesis reports the compression_channels
 it was built with

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From 401c34a5b202ac8ace16f2bb31209d0e64171f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 20/36] fix: memoize keeps cached arguments alive so a new
 tensor cannot hit a freed tensor's entry

---
 projects/torch_vct/utils/memoize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..4b5e1a3 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -137,11 +137,13 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result = result_cache[key]
+            result, _ = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            result_cache[key] = result
+            # Tensors are keyed by identity, so keep the arguments alive: otherwise a
+            # new tensor could reuse the identity of a freed one and hit its entry.
+            result_cache[key] = (result, (args, kwargs))
         return result
 
     # for inspection/testing:
-- 
2.43.0


From 75824529d706879255e3725f1ec17e92bbc84a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 21/36] fix: VCTPipeline.compress_video no longer leaves
 forward coding to strings

---
 projects/torch_vct/model_pipeline.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index 2a9fdc8..d39694f 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -472,7 +472,15 @@ class VCTPipeline(nn.Module):
         self, video: VideoData, force_cpu: bool = False
     ) -> Tuple[Tensor, List]:
         self._prepare_for_compression()
+        try:
+            return self._compress_video(video, force_cpu=force_cpu)
+        finally:
+            # only `compress_video` codes to strings, a later `forward` must not
+            self._code_to_strings = None
 
+    def _compress_video(
+        self, video: VideoData, force_cpu: bool = False
+    ) -> Tuple[Tensor, List]:
         assert (
             video.video_tensor.dim() == 5 and video.video_tensor.shape[0] == 1
         ), f"expected batch 1 video of shape [1, T, 3, H, W], got {video.shape}"
-- 
2.43.0


From 531809ea52465fed52b2493742af96dc8d3141ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:42 +0000
Subject: [PATCH 22/36] fix: VCT integer PSNR is not computed in wrapping uint8
 arithmetic

---
 projects/torch_vct/model_lightning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..fbfa51c 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -65,8 +65,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                (recon_frames * 255 + 0.5).to(torch.uint8).float(),
+                (batch.video_tensor * 255 + 0.5).to(torch.uint8).float(),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +107,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    (recon_frames * 255 + 0.5).to(torch.uint8).float(),
+                    (batch.video_tensor * 255 + 0.5).to(torch.uint8).float(),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -138,7 +138,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 # caveat: real compression people use YCbCr
                 recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
                 cts_psnr = peak_signal_noise_ratio(
-                    recon_uint8, video_ref_uint8, data_range=255
+                    recon_uint8.float(), video_ref_uint8.float(), data_range=255
                 ).item()
                 cts_rate = self.model.compute_rate(rate_args).item() / (H * W * T)
                 # Compute the rate excluding the first frame since we are technically
@@ -168,7 +168,7 @@ class VCTModule(pytorch_lightning.LightningModule):
             # caveat: real compression people use YCbCr
             recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
             psnr = peak_signal_noise_ratio(
-                recon_uint8, video_ref_uint8, data_range=255
+                recon_uint8.float(), video_ref_uint8.float(), data_range=255
             ).item()
             # bits per pixel
             bpp = sum(bits_per_frame) / (H * W * T)
-- 
2.43.0


From 7ce27523a269156862ba7673b0e0e1986c934f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:42 +0000
Subject: [PATCH 23/36] fix: VCT training and validation PSNR_int clamp the
 reconstruction before the uint8 conversion

---
 projects/torch_vct/model_lightning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index fbfa51c..30eb57d 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -65,7 +65,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8).float(),
+                (recon_frames.clamp(0.0, 1.0) * 255 + 0.5).to(torch.uint8).float(),
                 (batch.video_tensor * 255 + 0.5).to(torch.uint8).float(),
                 data_range=255,
                 dim=(2, 3, 4),
@@ -107,7 +107,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8).float(),
+                    (recon_frames.clamp(0.0, 1.0) * 255 + 0.5).to(torch.uint8).float(),
                     (batch.video_tensor * 255 + 0.5).to(torch.uint8).float(),
                     data_range=255,
                     dim=(2, 3, 4),
-- 
2.43.0


From 25b7152c37f9fb7a3f128c127b84e7166ba7834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:31 +0000
Subject: [PATCH 24/36] fix: bits-back coding stays lossless when the stack
 runs out part-way through a pop

With two or more lanes, a pop needing more bytes than the stack held took
the missing byte from above the remaining ones, so pushing the popped bytes
back left a stray byte on top of the stack and corrupted everything below.
---
 .../jax_entropy_coders/craystack/_backend.py    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/projects/jax_entropy_coders/craystack/_backend.py b/projects/jax_entropy_coders/craystack/_backend.py
index 742a2e2..706c953 100644
--- a/projects/jax_entropy_coders/craystack/_backend.py
+++ b/projects/jax_entropy_coders/craystack/_backend.py
@@ -161,10 +161,21 @@ def tail_pop(
     limit, data = tail
     unsorted = lax.sort_key_val(pop_indices_flat, jnp.arange(pop_indices.size))[1]
 
-    limit = lax.cond(
+    limit = limit + pop_indices.sum()
+    # if more is popped than the stack holds, the missing bytes are supplied
+    # beneath it (from the unused start of the array), so that pushing back
+    # what was popped leaves the bytes that were there on top
+    limit, data = lax.cond(
         allow_empty_pop,
-        lambda _: jnp.clip(limit + pop_indices.sum(), 0, len(data)),
-        lambda _: limit + pop_indices.sum(),
+        lambda _: (
+            jnp.clip(limit, 0, len(data)),
+            lax.dynamic_slice(
+                jnp.concatenate((data, data)),
+                jnp.clip(limit - len(data), 0, len(data)),
+                data.shape,
+            ),
+        ),
+        lambda _: (limit, data),
         None,
     )
     # here we return a slice containing the information in the pop indices
-- 
2.43.0


From 49b95de28c810a8a9a2906f569a2286d03cefbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 25/36] fix: ILLM GAN steps run an unconditional discriminator
 without the latent

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From bf611565edf8bd53091fe112faf6e0e9baa46772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 26/36] fix: UnetDiscriminator builds for every
 output_downsampling_factor it accepts

---
 neuralcompression/models/_unet_discriminator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..69c6a9c 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -213,6 +213,8 @@ class UnetDiscriminator(Discriminator):
         model: nn.Module = nn.Identity()
         lastchan = self.channels[-1]
         num_upsamples = len(self.channels) - 1 - num_downsamples
+        if num_upsamples < 0:
+            raise ValueError("output_downsampling_factor exceeds U-Net downsampling")
         clip_upsample = False
         for count, chan in enumerate(reversed(self.channels[1:-1])):
             if count == num_upsamples:
@@ -228,6 +230,8 @@ class UnetDiscriminator(Discriminator):
             )
             lastchan = chan
 
+        # the top level is clipped as soon as there is any output downsampling
+        clip_upsample = num_downsamples > 0
         model = _UnetLevel(
             in_planes=self.channels[0],
             down_planes=lastchan,
@@ -238,7 +242,11 @@ class UnetDiscriminator(Discriminator):
             norm_type=norm_type,
         )
 
-        self.model = nn.Sequential(model, nn.Conv2d(64, output_channels, 1, 1, 0))
+        # without any upsampling the features of the lowest level are the output
+        final_planes = 64 if num_upsamples > 0 else self.channels[-1]
+        self.model = nn.Sequential(
+            model, nn.Conv2d(final_planes, output_channels, 1, 1, 0)
+        )
 
     @property
     def is_conditional(self) -> bool:
-- 
2.43.0


From c64311464e190bb4c37c4bbe9b76bc33a0add28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 27/36] fix: Vimeo90kSeptuplet image mode works without a
 pil_transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From dbcafda91b7017ddca2900a33c86fc78c7eb39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 28/36] fix: Kodak force_download works over an existing root

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 7512a1fdd14e4af74361d243cf8ba460c62ebc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 29/36] fix: CLIC2020Video reads the frames of a video in order

---
 neuralcompression/data/_clic_2020_video.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..f20273c 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From 7a5b2b0334c0eb71f7a7b04e172bf1e840201f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 30/36] fix: CLIC2020Video finishes the clips of a video before
 taking the next one

---
 neuralcompression/data/_clic_2020_video.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index f20273c..936ecfe 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -148,6 +148,9 @@ class CLIC2020Video(IterableDataset):
         return self
 
     def __next__(self) -> Dict:
+        if self._current_video:
+            return self[self._current_video[1]]
+
         if not self._video_sampler_iterator:
             self._video_sampler_iterator = iter(
                 MultiProcessSampler(
-- 
2.43.0


From b15e27c1f2df2452c535ea4802a8d27e3bedba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 31/36] fix: CLIC2020Video can be iterated more than once

---
 neuralcompression/data/_clic_2020_video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 936ecfe..e11d468 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -145,6 +145,8 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        self._video_sampler_iterator = None  # start a new pass over the videos
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From c4326b82efc3a0c36c0c0f998553d63c13d644b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 32/36] fix: BitsBackCodec.state_dict keeps the extra bytes

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From f551238d262ba83542eb16abefcf893f42ff591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 33/36] fix: diag_gaussian_unif_bins centres its bins on the
 data levels

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index becd85a..a8881b6 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -703,8 +703,9 @@ def diag_gaussian_unif_bins(
         discretized using uniform bins.
     """
     n_bins = 1 << bin_prec
-    bin_min = data_min - 1 / (n_bins - 1)
-    bin_max = data_max + 1 / (n_bins - 1)
+    half_bin = (data_max - data_min) / (2 * (n_bins - 1))
+    bin_min = data_min - half_bin
+    bin_max = data_max + half_bin
 
     bins = np.linspace(bin_min, bin_max, n_bins + 1)
     bins = np.broadcast_to(np.moveaxis(bins, 0, -1), mean.shape + (n_bins + 1,))
-- 
2.43.0


From 38d8ce73b980003d436b8081c52a88c98b9cbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:43 +0000
Subject: [PATCH 34/36] fix: arithmetic coder refuses a stream whose last byte
 does not fit its buffer

---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From 9bbb178a38b8aa74ac6187c49da94fab7f94148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 35/36] fix: validation_step of DvcModule counts the I-frame's
 bits

---
 projects/deep_video_compression/dvc_module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..412d600 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -277,18 +277,21 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+
+        # compress the iframe and get its bpp cost (no grads)
+        batch, iframe_bpp = self.compress_iframe(batch)
+
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From 80060cc2a480acd3edaec0ea4127b2c7162adc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 36/36] fix: read all digits of a checkpoint's step from its
 file name

---
 .../bits_back_diffusion/bits_back_diffusion/script_util.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
index 4646e83..2fb5fb2 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
@@ -9,6 +9,7 @@ https://github.com/openai/improved-diffusion.
 """
 import copy
 import hashlib
+import re
 from pathlib import Path
 from typing import List, Set, Union
 
@@ -119,7 +120,10 @@ def parse_resume_step_from_filename(filename: Union[str, Path]) -> int:
     path = Path(filename)
     assert path.suffix in [".pt", ".npz"]
     assert any(s in path.name for s in ["ema", "model", "encode", "decode"])
-    return int(path.stem[-6:])
+    # at least six digits, negative for the remaining samples of a decoder
+    match = re.search(r"-?\d+$", path.stem)
+    assert match is not None
+    return int(match.group())
 
 
 def update_checkpoint(
-- 
2.43.0

