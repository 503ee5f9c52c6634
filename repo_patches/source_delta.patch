From 29a9d2be0bf9e5dda12d5377c98f4cd4ca268247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 001/120] fix: refuse integer storage types that cannot hold
 the quantized range

Integer types were credited with two bits more than they have, so that e.g.
9-bit values were stored in int8 (and any value in uint8) and silently wrapped.
---
 src/fastforward/quantization/_quantizer_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index d7516fc..fb46414 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -65,7 +65,11 @@ def can_support_bitwidth(dtype: torch.dtype, num_bits: float) -> bool:
                     f"Unknown mantissa size for {dtype}; precision loss possible."
                 )
     else:
-        available_precision_bits = torch.iinfo(dtype).bits
+        # Integer types are exact over their entire range and quantized values use
+        # all of -(2 ** (num_bits - 1)) through 2 ** (num_bits - 1) - 1. In particular,
+        # unsigned types cannot store the negative half of that range.
+        info = torch.iinfo(dtype)
+        return info.min <= -(2 ** (num_bits - 1)) and 2 ** (num_bits - 1) - 1 <= info.max
 
     # The first integer that cannot be exactly represented using a floating
     # point representation is (2 ** (mantissa_bits + 1)) + 1. Since fastforward
-- 
2.43.0


From 87daec27dd1d908b582b2a92b966760087513b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 002/120] fix: dequantize to the data type of the input in
 export mode

In export mode the dequantized values were converted to the storage dtype of the
quantized data, truncating them to integers for quantizers with an integer dtype.
---
 src/fastforward/quantization/affine/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/function.py b/src/fastforward/quantization/affine/function.py
index db69db3..c7028e1 100644
--- a/src/fastforward/quantization/affine/function.py
+++ b/src/fastforward/quantization/affine/function.py
@@ -116,7 +116,7 @@ class AffineQuantizationFunction(QuantizationFunction[AffineQuantParams]):
             params.scale,
             params.offset,
             tile_size,
-            params.quantized_dtype or data.dtype,
+            params.dequantize_dtype or data.dtype,
         )
         return dequantized_data
 
-- 
2.43.0


From b99bbfaf9d907a126411b93aa0f22d2e7cc44b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 003/120] fix: dequantize tensors stored as float8

Quantization to a float8 storage type is supported, but the result could not be
dequantized because float8 types are not promoted by torch.
---
 src/fastforward/quantization/_quantizer_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index fb46414..1db3082 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -187,6 +187,9 @@ def dequantize_by_tile_impl(
     tile_size = torch.Size(tile_size)
 
     row_representation = tiles_to_rows(data, tile_size)
+    if row_representation.is_floating_point() and row_representation.dtype.itemsize == 1:
+        # Float8 types do not take part in type promotion
+        row_representation = row_representation.to(scale.dtype)
     dequantized = (row_representation + offset[:, None]) * scale[:, None]
     dequantized = tiled_tensor.rows_to_tiles(dequantized, data.shape, tile_size)
     if output_dtype:
-- 
2.43.0


From c3292238d90ea54c170f5083bce92f592da1f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 004/120] fix: compare the blocks of PerBlock granularities

Any two PerBlock granularities compared equal because no attributes were listed
to compare.
---
 src/fastforward/quantization/granularity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/granularity.py b/src/fastforward/quantization/granularity.py
index f106b24..3c555ac 100644
--- a/src/fastforward/quantization/granularity.py
+++ b/src/fastforward/quantization/granularity.py
@@ -168,6 +168,8 @@ class PerBlock(Granularity):
             corresponding dimensions.
     """
 
+    __match_args__ = ("block_dims", "block_sizes", "per_channel_dims", "strict_blocks")
+
     def __init__(
         self,
         block_dims: int | Sequence[int],
-- 
2.43.0


From 16132083b16a2af5a006e6e1e39028f5e94f3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 005/120] fix: select the right elements in topk for negative
 scales

Multiplying a quantized tensor by a negative scalar negates its scale, after
which topk selected the smallest instead of the largest values and vice versa.
---
 src/fastforward/quantization/_linear_quantized_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 75acbf3..bd5df6e 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -275,6 +275,8 @@ def topk(
     largest: bool = True,
     sorted: bool = True,
 ) -> torch.return_types.topk:
+    # A negative scale reverses the order of the quantized values
+    largest = largest != bool(_affine_params(input).scale < 0)
     values, indices = torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)
     values = input.quantization_context.attach(values)
     return torch.return_types.topk((values, indices))
-- 
2.43.0


From 6f255d34bf1022e6a6cd529033fc24a2d6707548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 006/120] fix: keep the channel dimensions in place when
 unsqueezing

---
 src/fastforward/quantization/_linear_quantized_ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index bd5df6e..4b9dc88 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -243,7 +243,10 @@ def unsqueeze(input: QuantizedTensor, dim: int) -> QuantizedTensor:
         case ff.PerTensor():
             new_context = input.quantization_context
         case ff.PerChannel(axis):
-            new_axis = tuple(ax + ax >= dim for ax in axis)
+            ndim = input.raw_data.ndim
+            new_dim = dim % (ndim + 1)
+            positive_axis = tuple(ax % ndim for ax in axis)
+            new_axis = tuple(ax + (ax >= new_dim) for ax in positive_axis)
             new_context = input.quantization_context.with_changes(
                 granularity=ff.PerChannel(new_axis)
             )
-- 
2.43.0


From 5088c1446650cb98f601e6311174340247dd34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 007/120] fix: only concatenate quantized tensors that share
 all parameters

---
 .../quantization/_linear_quantized_ops.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 4b9dc88..49ed59c 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -189,8 +189,7 @@ def cat_predicate(
     # Lazy import to break circular import
     from fastforward.quantization.affine import AffineQuantizationFunction, StaticAffineQuantParams
 
-    scale: torch.Tensor | float | None = None
-    offset: torch.Tensor | float | None = None
+    reference: QuantizedTensor | None = None
 
     for tensor in tensors:
         if not isinstance(tensor, QuantizedTensor):
@@ -206,12 +205,18 @@ def cat_predicate(
         if not isinstance(quant_params.granularity, ff.PerTensor):
             return False
 
-        scale_match = scale is None or quant_params.scale == scale
-        offset_match = offset is None or quant_params.offset == offset
-        if not (scale_match and offset_match):
+        if reference is None:
+            reference = tensor
+            continue
+
+        ref_params = _affine_params(reference)
+        has_offset = quant_params.offset is not None
+        if has_offset != (ref_params.offset is not None):
+            return False
+        if quant_params.scale != ref_params.scale or quant_params.offset != ref_params.offset:
+            return False
+        if quant_params.num_bits != ref_params.num_bits or tensor.dtype != reference.dtype:
             return False
-        scale = quant_params.scale
-        offset = quant_params.offset
 
     return True
 
-- 
2.43.0


From 6c2f02432b40cde4065082d6625fcd556af4c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 008/120] fix: pick the right channels when indexing with
 tensors, lists, and masks

---
 .../quantization/_linear_quantized_ops.py     | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 49ed59c..94ed6cd 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -294,7 +294,7 @@ def topk(
 def getitem_per_channel(
     input: QuantizedTensor, slices: SliceLike | tuple[SliceLike]
 ) -> QuantizedTensor:
-    if isinstance(slices, SliceLike):
+    if not isinstance(slices, tuple):
         # convert a single slice into a tuple
         slices = (slices,)
 
@@ -319,6 +319,27 @@ def getitem_per_channel(
         dim if (i in channel_dims) else 1 for i, dim in enumerate(input.raw_data.shape)
     ]
 
+    if not all(isinstance(s, SliceLike) and not isinstance(s, bool) for s in slices):
+        # Advanced indexing (tensors, lists, masks) may repeat, reorder, or merge dimensions.
+        # Apply it to the channel number of each element to find the channels of the result.
+        num_channels = q_params.scale.numel()
+        channels = torch.arange(num_channels, device=q_params.scale.device)
+        channels = channels.view(param_tmp_shape).expand(input.raw_data.shape)[slices]
+        new_channel_dims = tuple(
+            d
+            for d in range(channels.ndim)
+            if channels.numel() > 0 and (channels != channels.narrow(d, 0, 1)).any()
+        )
+        for d in range(channels.ndim):
+            if d not in new_channel_dims:
+                channels = channels.narrow(d, 0, min(1, channels.shape[d]))
+        channels = channels.reshape(-1)
+        return input.quantization_context.with_changes(
+            scale=q_params.scale[channels],
+            offset=q_params.offset[channels] if q_params.offset is not None else None,
+            granularity=ff.PerChannel(channel_dim=new_channel_dims),
+        ).attach(input.raw_data[slices])
+
     # get the operations we need to perform on the scaling and offset
     slices_effective_: list[SliceLike] = []
     orig_index = 0
-- 
2.43.0


From e62c97dcb9161eeecc4d71959cd16aaad419b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 009/120] fix: derive a usable scale for all-zero symmetric
 ranges

---
 src/fastforward/quantization/affine/range.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/range.py b/src/fastforward/quantization/affine/range.py
index 19e70b6..ea9f98f 100644
--- a/src/fastforward/quantization/affine/range.py
+++ b/src/fastforward/quantization/affine/range.py
@@ -108,7 +108,10 @@ def parameters_for_range(
         # Choose scale such that entire range falls within bounds
         neg_scale = torch.abs(min_range) / abs(int_min)
         pos_scale = torch.abs(max_range) / abs(integer_maximum(num_bits))
-        return torch.max(neg_scale, pos_scale), None
+        scale = torch.max(neg_scale, pos_scale)
+        # An all-zero range leaves the scale undetermined, use the smallest scale instead.
+        scale = torch.where(scale == 0, torch.finfo(scale.dtype).eps, scale)
+        return scale, None
     else:
         # Choose scale and offset such that integer_minimum and integer_maximum
         # map to min and max, respectively.
-- 
2.43.0


From 350d078c3f7a55b822777fb789d012730ac01733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 010/120] fix: do not evaluate is_nonzero on the raw data of
 quantized tensors

---
 src/fastforward/quantized_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 3082ccc..7f5a59f 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -223,7 +223,7 @@ if torch.__version__ < "2.13":
 _no_dispatch_attributes = [
     "is_coalesced", "is_complex", "is_conj", "is_contiguous", "is_cpu", "is_cuda",
     "is_distributed", "is_floating_point", "is_inference", "is_ipu", "is_leaf", "is_meta",
-    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_nonzero", "is_pinned",
+    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_pinned",
     "is_same_size", "is_set_to", "is_shared", "is_signed", "is_sparse", "is_sparse_csr",
     "is_vulkan", "is_xpu",
 ]
-- 
2.43.0


From e7c6ef0147dd0a7d1e3d67daf36e25a02b3d7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 011/120] fix: only use the quantized view_as kernel when a
 quantized tensor is viewed

---
 src/fastforward/quantized_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 7f5a59f..5ee54a0 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -577,7 +577,7 @@ def _view_predicate(self: QuantizedTensor, *shape: int | Sequence[int] | torch.S
 
 @Predicate
 def _view_as_predicate(self: QuantizedTensor, other: torch.Tensor) -> bool:
-    if not isinstance(other, torch.Tensor):
+    if not isinstance(self, QuantizedTensor) or not isinstance(other, torch.Tensor):
         return False  # type: ignore[unreachable]
     return other.shape == self.shape
 
-- 
2.43.0


From 36703f1f23a6bcc4895829810c3bc60461ac7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 012/120] fix: make quantized attention differentiable

---
 src/fastforward/nn/functional/custom/sdpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 5ce481f..8629ec2 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -354,7 +354,7 @@ def _quantized_safe_softmax(
             masked = t <= neg_inf
         masked_rows = torch.all(masked, dim=dim, keepdim=True)
         zero = out.new_tensor(0.0)
-        torch.where(condition=masked_rows, input=zero, other=out, out=out)
+        out = torch.where(masked_rows, zero, out)
         if output_quantizer:
             out = output_quantizer(out)
     return out
-- 
2.43.0


From a60aeba7aea31b6b4c442fd30f78f15f7a64fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 013/120] fix: handle quantized operands of attention in the
 mode of the call

---
 src/fastforward/nn/functional/custom/sdpa.py | 25 ++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 8629ec2..e632c55 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -5,16 +5,18 @@ import logging
 import math
 
 from types import TracebackType
+from typing import Any
 
 import torch
 
 from fastforward._utils import classproperty
-from fastforward.dispatcher import dispatch, register
+from fastforward.dispatcher import Predicate, dispatch, register
 from fastforward.exceptions import QuantizationError
 from fastforward.flags import get_sdpa_torch_fallback_allowed, get_strict_quantization
 from fastforward.flags import strict_quantization as strict_quantization_ctx
 from fastforward.nn import functional as functional
 from fastforward.nn.quantizer import Quantizer, QuantizerStub
+from fastforward.quantized_tensor import QuantizedTensor
 
 logger = logging.getLogger(__name__)
 
@@ -63,7 +65,10 @@ def scaled_dot_product_attention(
         ] + [q for q in kwargs.values() if isinstance(q, Quantizer)]
 
         is_any_quantizer_active = any([_is_quantizer_active(q) for q in all_quantizers])
-        if not is_any_quantizer_active:
+        is_any_operand_quantized = any(
+            isinstance(t, QuantizedTensor) for t in (query, key, value, attn_mask)
+        )
+        if not is_any_quantizer_active and not is_any_operand_quantized:
             _torch_sdpa_fallback(
                 query=query,
                 key=key,
@@ -123,7 +128,16 @@ def scaled_dot_product_attention(
     )
 
 
-@register("scaled_dot_product_attention")
+def _is_fastforward_call(*_args: Any, **kwargs: Any) -> bool:
+    """Return true for calls made through the fastforward functional.
+
+    A direct call to `torch.nn.functional.scaled_dot_product_attention` is dispatched
+    under the same name, but carries neither quantizers nor a quantization mode.
+    """
+    return "strict_quantization" in kwargs
+
+
+@register("scaled_dot_product_attention", Predicate(_is_fastforward_call))
 def scaled_dot_product_attention_math(
     query: torch.Tensor,
     key: torch.Tensor,
@@ -244,8 +258,11 @@ def scaled_dot_product_attention_math(
         strict_quantization=strict_quantization,
     )
 
+    with strict_quantization_ctx(strict_quantization):
+        key = key.transpose(-2, -1)
+
     key = functional.mul(
-        key.transpose(-2, -1),
+        key,
         scale_factor_sqrt,
         output_quantizer=scaled_key_quantizer,
         strict_quantization=strict_quantization,
-- 
2.43.0


From 25c054f46cd435dce2a25a3be5073025637fc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 014/120] fix: restore modes for reused, nested, and failing
 scopes

---
 src/fastforward/flags.py                      | 13 ++++++++++---
 src/fastforward/nn/functional/custom/sdpa.py  |  5 +++--
 .../quantization/strict_quantization.py       | 19 ++++++++++++-------
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/fastforward/flags.py b/src/fastforward/flags.py
index 75eb511..72f7e99 100644
--- a/src/fastforward/flags.py
+++ b/src/fastforward/flags.py
@@ -39,14 +39,21 @@ def _context_flag(flag_name: str, init_value: bool) -> _FlagMethods:
 
     class context:
         def __init__(self, value: bool) -> None:
-            self._current_value = getter()
+            # The flag is set on construction, hence the first `with` block
+            # restores the value of before the construction.
+            self._value = value
+            self._previous_values = [getter()]
+            self._entered = False
             _setter(value)
 
         def __enter__(self) -> None:
-            pass
+            if self._entered:
+                self._previous_values.append(getter())
+            self._entered = True
+            _setter(self._value)
 
         def __exit__(self, exc_type, exc_value, traceback) -> None:  # type: ignore[no-untyped-def]
-            _setter(self._current_value)
+            _setter(self._previous_values.pop())
 
     def setter(value: bool) -> ContextManager[None]:
         return context(value)
diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index e632c55..b42161b 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -448,7 +448,7 @@ class _SDPAUpcast:
     _DTYPE: torch.dtype | None = __DEFAULT_UPCAST_DTYPE
 
     def __init__(self, dtype: torch.dtype | bool | None):
-        self._orig_dtype = _SDPAUpcast._DTYPE
+        self._orig_dtypes: list[torch.dtype | None] = []
         self._dtype: torch.dtype | None
 
         if isinstance(dtype, torch.dtype):
@@ -462,6 +462,7 @@ class _SDPAUpcast:
             self._dtype = None
 
     def __enter__(self) -> None:
+        self._orig_dtypes.append(_SDPAUpcast._DTYPE)
         _SDPAUpcast._DTYPE = self._dtype
 
     def __exit__(
@@ -470,7 +471,7 @@ class _SDPAUpcast:
         exc_val: BaseException | None,
         exc_tb: TracebackType | None,
     ) -> None:
-        _SDPAUpcast._DTYPE = self._orig_dtype
+        _SDPAUpcast._DTYPE = self._orig_dtypes.pop()
 
     @classproperty
     def dtype(cls) -> torch.dtype | None:
diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index ace6068..38546fa 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -29,9 +29,9 @@ class ModuleStrictQuantHandle:
         """
         self._enable_strict_quantization = enable_strict_quantization
         self._handles: list[RemovableHandle] = []
-        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, bool] = (
-            weakref.WeakKeyDictionary()
-        )
+        self._module_original_strict_modes: weakref.WeakKeyDictionary[
+            torch.nn.Module, list[bool]
+        ] = weakref.WeakKeyDictionary()
 
     def _pre_forward_hook(self, module: torch.nn.Module, args: tuple[Any, ...]) -> None:
         """Pre-forward hook to set the strict quantization mode before module execution.
@@ -41,7 +41,8 @@ class ModuleStrictQuantHandle:
             args: The arguments passed to the module.
         """
         del args
-        self._module_original_strict_mode[module] = ff.get_strict_quantization()
+        strict_modes = self._module_original_strict_modes.setdefault(module, [])
+        strict_modes.append(ff.get_strict_quantization())
         ff.set_strict_quantization(self._enable_strict_quantization)
 
     def _post_forward_hook(
@@ -55,8 +56,8 @@ class ModuleStrictQuantHandle:
             output: The output of the module.
         """
         del args, output
-        if (strict_mode := self._module_original_strict_mode.get(module, None)) is not None:
-            ff.set_strict_quantization(strict_mode)
+        if strict_modes := self._module_original_strict_modes.get(module, None):
+            ff.set_strict_quantization(strict_modes.pop())
 
     def attach(self, module: torch.nn.Module) -> None:
         """Attach the pre-forward and post-forward hooks to a module.
@@ -64,8 +65,12 @@ class ModuleStrictQuantHandle:
         Args:
             module: The module to attach hooks to.
         """
+        # The post-forward hooks run in the opposite order of the pre-forward hooks such
+        # that multiple handles nest, also if the module raises an exception.
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook)
+        post_handle = module.register_forward_hook(
+            self._post_forward_hook, prepend=True, always_call=True
+        )
         self._handles.append(pre_handle)
         self._handles.append(post_handle)
 
-- 
2.43.0


From bf4e2fe03f33475e69ade7accd4833117c9f8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 015/120] fix: let overrides call the remainder of the stack
 more than once

---
 src/fastforward/forward_override.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/forward_override.py b/src/fastforward/forward_override.py
index 0d774ad..7e9c325 100644
--- a/src/fastforward/forward_override.py
+++ b/src/fastforward/forward_override.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import functools
 import weakref
 
 from typing import TYPE_CHECKING, Any, Callable, Generic, Mapping, Protocol, TypeVar
@@ -82,15 +83,26 @@ class _WrappedOverriddenFn(Generic[T]):
     ) -> None:
         self.context = context
         self.overridden_fn = overridden_fn
-        _, override_stack = zip(*sorted(override_map.items()))
-        self.override_stack: list[OverrideFn[T]] = list(override_stack)
+        self.override_map = override_map
 
     def __call__(self, *args: Any, **kwargs: Any) -> T:
-        if not self.override_stack:
-            return self.overridden_fn(*args, **kwargs)
-        else:
-            override_fn = self.override_stack.pop()
-            return override_fn(self.context, self, args, kwargs)
+        # Each override receives its own callable for the remainder of the stack. Hence,
+        # it can be called any number of times, also if overrides are added or removed
+        # during the call.
+        fn = self.overridden_fn
+        for _, override_fn in sorted(self.override_map.items()):
+            fn = functools.partial(self._call_override, override_fn, fn)
+        return fn(*args, **kwargs)
+
+    def _call_override(
+        self,
+        override_fn: OverrideFn[T],
+        overridden_fn: Callable[..., T],
+        /,
+        *args: Any,
+        **kwargs: Any,
+    ) -> T:
+        return override_fn(self.context, overridden_fn, args, kwargs)
 
 
 def apply_overrides(
-- 
2.43.0


From c3e5e41b249c0ac45e3aa583556d75dc350de03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 016/120] fix: remove exactly the dispatcher registration of
 the hook

---
 src/fastforward/dispatcher.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/dispatcher.py b/src/fastforward/dispatcher.py
index 9331bcd..ecaf4bb 100644
--- a/src/fastforward/dispatcher.py
+++ b/src/fastforward/dispatcher.py
@@ -133,10 +133,12 @@ class DispatcherRegistrationHook:
         pass
 
     def __exit__(self, exc_type, exc_value, traceback):  # type: ignore[no-untyped-def]
-        try:
-            _DISPATCHER[self._op_name].remove(self._dispatcher_item)
-        except ValueError:
-            pass
+        # Compare by identity, an equal item may be registered separately.
+        op_impls = _DISPATCHER[self._op_name]
+        for idx, item in enumerate(op_impls):
+            if item is self._dispatcher_item:
+                del op_impls[idx]
+                break
 
 
 def _register_decorator(
-- 
2.43.0


From daeefd16ddd19c5808312a71f2a875cd04818451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 017/120] fix: detach range estimators if the setup fails
 half-way

---
 src/fastforward/range_setting/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/range_setting/common.py b/src/fastforward/range_setting/common.py
index 128f065..a390ac6 100644
--- a/src/fastforward/range_setting/common.py
+++ b/src/fastforward/range_setting/common.py
@@ -278,11 +278,11 @@ def estimate_ranges(
         )
 
     prepared_modules: list[tuple[_Module, _T]] = []
-    for module in model_or_layers:
-        for module_part in estimator.split_module(module):
-            metadata = estimator.prepare(module_part)
-            prepared_modules.append((module_part, metadata))
     try:
+        for module in model_or_layers:
+            for module_part in estimator.split_module(module):
+                metadata = estimator.prepare(module_part)
+                prepared_modules.append((module_part, metadata))
         yield
     finally:
         for module, metadata in prepared_modules:
-- 
2.43.0


From 7a863806607405264349df6eb8b0ebe7f5030597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 018/120] fix: evaluate every candidate of the range search
 grid

---
 src/fastforward/range_setting/min_error.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index cc123c6..a3599a0 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -123,7 +123,9 @@ class _UniformSearchGrid:
             )
 
             steps_min_threshold = torch.linspace(1, margin, num_candidates_min_threshold, **tkwargs)
-            steps_max_threshold = torch.linspace(margin, 1, num_candidates_max_threshold, **tkwargs)
+            steps_max_threshold = torch.linspace(
+                1, margin, num_candidates_max_threshold, **tkwargs
+            ).flip(0)
 
             min_threshold = steps_min_threshold.unsqueeze(1) * (
                 rel_margin * min_data.unsqueeze(0) + abs_margin
@@ -214,7 +216,7 @@ class _MinAvgErrorGridEstimator(SimpleEstimatorStep[SupportsRangeBasedOperator],
         quantizer.quantization_range = (min_threshold, max_threshold)
 
     def estimate_step(self, quantizer: SupportsRangeBasedOperator, data: torch.Tensor) -> None:
-        for i in range(self.num_candidates):
+        for i in range(self.min_threshold.shape[0]):
             quant_op = quantizer.operator_for_range(
                 self.min_threshold[i], self.max_threshold[i], data.shape
             )
-- 
2.43.0


From 3fce4666a82eb4c13376eb25d06ba2f9364d952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 019/120] fix: detect saved states whose files belong to
 different saves

---
 src/fastforward/quantization/save_load.py | 67 ++++++++++++++++++++---
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e11c55f..1b2f47e 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -32,10 +32,14 @@ which owns that transform.
 
 from __future__ import annotations
 
+import contextlib
 import json
 import logging
+import os
+import uuid
 
 from collections import defaultdict
+from collections.abc import Iterator
 from operator import attrgetter
 from pathlib import Path
 
@@ -59,6 +63,27 @@ logger = logging.getLogger(__name__)
 # marker entry is written instead to keep the file readable.
 _EMPTY_STATE_MARKER = "__ff_empty_quantizer_state__"
 
+# Metadata key holding the identifier shared by all files that are written by a
+# single save. Files of different saves must never be combined.
+_SAVE_ID_KEY = "__ff_save_id__"
+
+
+@contextlib.contextmanager
+def _replace_file(path: Path) -> Iterator[Path]:
+    """Yield a temporary path that replaces `path` once the block succeeds."""
+    tmp_path = path.with_name(f".{path.name}.tmp")
+    yield tmp_path
+    os.replace(tmp_path, path)
+
+
+def _check_save_id(path: Path, found: str | None, expected: str | None) -> None:
+    if found != expected:
+        msg = (
+            f"'{path}' does not belong to the same save as the other files next to it. "
+            "The last save was likely interrupted."
+        )
+        raise RuntimeError(msg)
+
 
 def _deduplicate_shared_tensors(
     tensors: dict[str, torch.Tensor],
@@ -229,6 +254,7 @@ def _write_quantizer_state(
     *,
     state_filename: str,
     allow_lazy_params: bool = False,
+    save_id: str | None = None,
 ) -> Path:
     """Write the quantizer state (params + config) into `target_dir`.
 
@@ -246,6 +272,8 @@ def _write_quantizer_state(
             'model.safetensors' or 'quantizer_state.safetensors').
         allow_lazy_params: If False, uninitialized quantizer parameters raise
             a ValueError; if True, a warning is emitted instead.
+        save_id: Identifier of the save the files belong to. If None, a new
+            identifier is used.
 
     Returns:
         Path to the written `config.yaml`.
@@ -255,8 +283,11 @@ def _write_quantizer_state(
         model, allow_lazy_params=allow_lazy_params
     )
 
+    save_id = save_id or uuid.uuid4().hex
+
     config = {
         "version": "1.0",
+        "save_id": save_id,
         "name_or_path": str(name_or_path),
         "transformers_version": str(transformers_version),
         "fastforward_version": str(ff.__version__),
@@ -269,10 +300,15 @@ def _write_quantizer_state(
     # explicit marker to keep the file readable by any consumer.
     if not state and not metadata:
         metadata = {_EMPTY_STATE_MARKER: "true"}
-    save_file(state, target_dir / state_filename, metadata=metadata)
+    metadata[_SAVE_ID_KEY] = save_id
     config_path = target_dir / "config.yaml"
-    with open(config_path, "w") as f:
-        yaml.dump(config, f, sort_keys=False)
+    with (
+        _replace_file(target_dir / state_filename) as tmp_state_path,
+        _replace_file(config_path) as tmp_config_path,
+    ):
+        save_file(state, tmp_state_path, metadata=metadata)
+        with open(tmp_config_path, "w") as f:
+            yaml.dump(config, f, sort_keys=False)
     return config_path
 
 
@@ -405,6 +441,7 @@ def _load_quantizer_state_from_files(
     expected_name: str | None = None,
     overwrite_policy: _OverwriteOptions = "error",
     allow_lazy_params: bool = False,
+    other_save_ids: dict[Path, str | None] | None = None,
 ) -> None:
     """Reconstruct and reattach quantizers from a config/safetensors pair.
 
@@ -423,12 +460,14 @@ def _load_quantizer_state_from_files(
             initialized: 'error', 'skip', or 'overwrite'.
         allow_lazy_params: If False, lazy parameters recorded in the state
             raise a ValueError; if True, they emit a warning instead.
+        other_save_ids: Save identifiers of other files that must stem from the
+            same save as the config.
 
     Raises:
         ValueError: If the config version is unsupported or lazy params are
             disallowed.
-        RuntimeError: If the model identifier mismatches or state keys are
-            missing/unexpected.
+        RuntimeError: If the model identifier mismatches, state keys are
+            missing/unexpected, or the files stem from different saves.
     """
     # Load configuration
     with open(config_path, "r") as f:
@@ -448,6 +487,9 @@ def _load_quantizer_state_from_files(
         logger.error(msg)
         raise RuntimeError(msg)
 
+    for path, other_save_id in (other_save_ids or {}).items():
+        _check_save_id(path, other_save_id, config.get("save_id"))
+
     quantizers: dict[str, Quantizer] = config.get("quantizers", {})
     # Reconstruct quantizer state_dict by parsing metadata to map parameter names to tensor keys.
     # The metadata format "param=tensor_key" allows to load the correct tensors for each
@@ -460,6 +502,7 @@ def _load_quantizer_state_from_files(
     if quantizers:
         with safe_open(model_path, framework="pt") as f:
             metadata = f.metadata()
+            _check_save_id(model_path, metadata.get(_SAVE_ID_KEY), config.get("save_id"))
 
             for name, quantizer in quantizers.items():
                 state_tensor_keys = {}
@@ -599,12 +642,14 @@ def save_quantized_model(
     # responsibility (via fuse_qdq_weights) before reaching this point.
     save_model = model
 
+    save_id = uuid.uuid4().hex
     _write_quantizer_state(
         save_model,
         artifact_path,
         name_or_path,
         state_filename="quantizer_state.safetensors",
         allow_lazy_params=allow_lazy_params,
+        save_id=save_id,
     )
 
     # Model weights only (bias, norms, embeddings, ...): exclude quantizer
@@ -626,16 +671,19 @@ def save_quantized_model(
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
     # once and re-expanded on load from the manifest's alias map.
     weight_state, tied_weights = _deduplicate_shared_tensors(weight_state)
-    save_file(weight_state, artifact_path / "weights.safetensors")
+    with _replace_file(artifact_path / "weights.safetensors") as tmp_weights_path:
+        save_file(weight_state, tmp_weights_path, metadata={_SAVE_ID_KEY: save_id})
 
     manifest = {
         "version": "1.0",
+        "save_id": save_id,
         "name_or_path": str(name_or_path),
         "fastforward_version": str(ff.__version__),
         "tied_weights": tied_weights,
     }
-    with open(artifact_path / "manifest.json", "w") as f:
-        json.dump(manifest, f, indent=2)
+    with _replace_file(artifact_path / "manifest.json") as tmp_manifest_path:
+        with open(tmp_manifest_path, "w") as f:
+            json.dump(manifest, f, indent=2)
 
     return artifact_path
 
@@ -716,9 +764,11 @@ def load_quantized_model(
         expected_name=expected_name or None,
         overwrite_policy=overwrite_policy,
         allow_lazy_params=allow_lazy_params,
+        other_save_ids={manifest_path: manifest.get("save_id")},
     )
 
     with safe_open(weights_path, framework="pt") as f:
+        weights_metadata = f.metadata() or {}
         weight_state = {key: f.get_tensor(key) for key in f.keys()}
     weight_state = _expand_shared_tensors(weight_state, manifest.get("tied_weights", {}))
 
@@ -742,5 +792,6 @@ def load_quantized_model(
         )
         logger.error(msg)
         raise RuntimeError(msg)
+    _check_save_id(weights_path, weights_metadata.get(_SAVE_ID_KEY), manifest.get("save_id"))
 
     model.load_state_dict(weight_state, strict=False)
-- 
2.43.0


From 9163ed3058bc97898ad6c83a79f66b79a15f59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 020/120] fix: save quantized models with non-contiguous or
 reinterpreted weights

---
 src/fastforward/quantization/save_load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 1b2f47e..a64f95b 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -107,9 +107,11 @@ def _deduplicate_shared_tensors(
         name to its tensor and `aliases` maps each dropped name to the
         representative name holding its values.
     """
-    groups: dict[tuple[int, torch.Size, tuple[int, ...], torch.device], list[str]] = {}
+    groups: dict[
+        tuple[int, torch.Size, tuple[int, ...], torch.device, torch.dtype], list[str]
+    ] = {}
     for name, tensor in tensors.items():
-        key = (tensor.data_ptr(), tensor.shape, tensor.stride(), tensor.device)
+        key = (tensor.data_ptr(), tensor.shape, tensor.stride(), tensor.device, tensor.dtype)
         groups.setdefault(key, []).append(name)
 
     unique: dict[str, torch.Tensor] = {}
@@ -671,6 +673,8 @@ def save_quantized_model(
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
     # once and re-expanded on load from the manifest's alias map.
     weight_state, tied_weights = _deduplicate_shared_tensors(weight_state)
+    # SafeTensors also rejects non-contiguous tensors, e.g. channels-last weights.
+    weight_state = {name: weight.contiguous() for name, weight in weight_state.items()}
     with _replace_file(artifact_path / "weights.safetensors") as tmp_weights_path:
         save_file(weight_state, tmp_weights_path, metadata={_SAVE_ID_KEY: save_id})
 
-- 
2.43.0


From 0871b18d397291c3e97486f8c0a757d75c7c26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 021/120] fix: save and load quantized models with
 uninitialized quantizers

---
 src/fastforward/quantization/save_load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index a64f95b..a98e4ce 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -667,7 +667,7 @@ def save_quantized_model(
     )
     weight_state = {
         name: param.detach()
-        for name, param in save_model.state_dict().items()
+        for name, param in save_model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
@@ -786,7 +786,11 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {name for name in model.state_dict() if not name.startswith(quantizer_prefixes)}
+    expected_keys = {
+        name
+        for name in model.state_dict(keep_vars=True)
+        if not name.startswith(quantizer_prefixes)
+    }
     missing_keys = sorted(expected_keys - weight_state.keys())
     unexpected_keys = sorted(weight_state.keys() - expected_keys)
     if missing_keys or unexpected_keys:
-- 
2.43.0


From 8f16da147472e81623ad119cb4bc2a5d67791012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 022/120] fix: restore quantizers whose name holds special
 characters

---
 src/fastforward/quantization/save_load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index a98e4ce..27f303c 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -42,6 +42,7 @@ from collections import defaultdict
 from collections.abc import Iterator
 from operator import attrgetter
 from pathlib import Path
+from urllib.parse import quote, unquote
 
 import torch
 import yaml
@@ -166,7 +167,7 @@ def _collect_quantizer_state(
       quantizer name to avoid duplication. Example:
       `{"layer1.weight_quantizer.scale": tensor([1.0]), ...}`
     - `metadata`: maps each quantizer name to its parameter keys in the
-      format "param=tensor_key", enabling reconstruction of individual
+      format "param=tensor_key" (with a percent-encoded `tensor_key`), enabling reconstruction of individual
       quantizer state dicts during loading. Uninitialized parameters are
       decorated with a `::lazy` suffix. Example:
       `{"layer1.weight_quantizer": "scale=layer1.weight_quantizer.scale,..."}`
@@ -214,7 +215,7 @@ def _collect_quantizer_state(
 
         for name in names:
             params_metadata = [
-                f"{param}={first_name}.{param}" + ("::lazy" if param in lazy_param else "")
+                f"{param}={quote(f'{first_name}.{param}')}" + ("::lazy" if param in lazy_param else "")
                 for param in state_dict.keys()
             ]
             metadata[name] = ",".join(params_metadata)
@@ -520,7 +521,7 @@ def _load_quantizer_state_from_files(
                     if "lazy" in decorators:
                         lazy_params.append(state_key)
                     else:
-                        state_tensor_keys[state_key] = tensor_key
+                        state_tensor_keys[state_key] = unquote(tensor_key)
 
                 missing_keys, unexpected_keys = quantizer.load_state_dict(
                     {
-- 
2.43.0


From abd1b6f8711d37d6a1a8a06fe52a8710bb831760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 023/120] fix: load quantization states of models that are
 identified by a folder

---
 src/fastforward/quantization/save_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 27f303c..88d4e0f 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -403,14 +403,14 @@ def load_quantization_state(
         ValueError: If the loaded configuration is incompatible.
     """
     name: str | None = getattr(getattr(model, "config", None), "name_or_path", None)
-    if name_or_path is not None and not Path(name_or_path).exists():
+    if name_or_path is not None and not Path(name_or_path).is_file():
         name = str(name_or_path)
     if name is None:
         raise RuntimeError(
             "Unable to detect the model identifier. Please provide it manually "
             "if there is no `config.name_or_path` property in the model"
         )
-    if name_or_path is not None and Path(name_or_path).exists():
+    if name_or_path is not None and Path(name_or_path).is_file():
         config_path = Path(name_or_path)
     else:
         config_path = (
-- 
2.43.0


From 4de4ae6ccccc5e90c13f281771ba7b4106ca60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 024/120] fix: load quantizers that have no parameters

---
 src/fastforward/quantization/save_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 88d4e0f..f999bd1 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -510,7 +510,7 @@ def _load_quantizer_state_from_files(
             for name, quantizer in quantizers.items():
                 state_tensor_keys = {}
                 lazy_params = []
-                for key in metadata[f"{name}"].split(","):
+                for key in filter(None, metadata[f"{name}"].split(",")):
                     state_key, tensor_key = key.split("=")
 
                     if "::" in tensor_key:
-- 
2.43.0


From 1802e9e020affb286caa64dcda191703345fd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 025/120] fix: keep the arguments of __new__ per instance

---
 src/fastforward/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 7709b8b..f1341a3 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -46,7 +46,9 @@ def _wrap(func: Callable[_P, _R]) -> Callable[_P, _R]:
         fn_args = copy.deepcopy(tuple((args[1:], kwargs)))
         fn_name = func.__name__.replace("__", "")
         result = func(*args, **kwargs)
-        setattr(args[0], f"__{fn_name}args_ex__", fn_args)
+        # `__new__` receives the class; its arguments belong to the new instance.
+        obj = result if func.__name__ == "__new__" else args[0]
+        setattr(obj, f"__{fn_name}args_ex__", fn_args)
         return result
 
     return wrapper
-- 
2.43.0


From d65ffde4e1f69602d1066c69c0676469f127ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 026/120] fix: reload objects whose class inherits its
 constructor

---
 src/fastforward/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index f1341a3..a8756b7 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -131,14 +131,15 @@ def _ff_obj_yaml_constructor(
     values = loader.construct_mapping(cast(yaml.MappingNode, node), deep=True)
     class_name = values.pop("name")
     newargs, newkwargs = values.pop("newargs", ((), {}))
-    initargs, initkwargs = values.pop("initargs", ((), {}))
+    initargs = values.pop("initargs", None)
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
-    if _has_custom_method(cls, "__new__"):
+    if initargs is not None:
+        # Arguments are recorded for custom and inherited constructors alike
+        obj = cls(*initargs[0], **initargs[1])
+    else:
         obj = cls.__new__(cls, *newargs, **newkwargs)
-    if _has_custom_method(cls, "__init__"):
-        obj = cls(*initargs, **initkwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
     if "state" in values:
-- 
2.43.0


From 3fdd998d71871c189fbb96caa99e1e6de960d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 027/120] fix: restore the data type of saved quantization
 parameters

---
 src/fastforward/quantization/save_load.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index f999bd1..d904ad6 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -167,9 +167,9 @@ def _collect_quantizer_state(
       quantizer name to avoid duplication. Example:
       `{"layer1.weight_quantizer.scale": tensor([1.0]), ...}`
     - `metadata`: maps each quantizer name to its parameter keys in the
-      format "param=tensor_key" (with a percent-encoded `tensor_key`), enabling reconstruction of individual
-      quantizer state dicts during loading. Uninitialized parameters are
-      decorated with a `::lazy` suffix. Example:
+      format "param=tensor_key" (with a percent-encoded `tensor_key`), enabling
+      reconstruction of individual quantizer state dicts during loading.
+      Uninitialized parameters are decorated with a `::lazy` suffix. Example:
       `{"layer1.weight_quantizer": "scale=layer1.weight_quantizer.scale,..."}`
     - `config_quantizers`: maps each quantizer name to its quantizer object,
       for serialization into the YAML config.
@@ -523,12 +523,17 @@ def _load_quantizer_state_from_files(
                     else:
                         state_tensor_keys[state_key] = unquote(tensor_key)
 
+                # Assign instead of copy into the parameters of the new quantizer, as
+                # these do not necessarily have the data type of the saved parameters.
+                params = quantizer.state_dict(keep_vars=True)
+                state = {key: f.get_tensor(name) for key, name in state_tensor_keys.items()}
                 missing_keys, unexpected_keys = quantizer.load_state_dict(
                     {
-                        state_key: f.get_tensor(tensor_key)
-                        for state_key, tensor_key in state_tensor_keys.items()
+                        key: tensor.to(params[key].device if key in params else None, copy=True)
+                        for key, tensor in state.items()
                     },
                     strict=False,
+                    assign=True,
                 )
 
                 if len(lazy_params) > 0:
-- 
2.43.0


From 9862d778847c86cc44b65df9de14012f3ce3c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 028/120] fix: load quantizers of modules that are used more
 than once

---
 src/fastforward/quantization/save_load.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index d904ad6..a0e6c12 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -561,6 +561,8 @@ def _load_quantizer_state_from_files(
         parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
         parent_attribute = parts[-1]
         current_quantizer = getattr(parent, parent_attribute, None)
+        if current_quantizer is quantizer:
+            continue  # already attached through another name of a shared module
 
         is_quantizer = isinstance(current_quantizer, Quantizer)
         is_quantizer_stub = isinstance(current_quantizer, QuantizerStub)
-- 
2.43.0


From 9a391f397e3652568cd37b093b4df1de0b9d5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 029/120] fix: pickle tags of quantizer metadata

---
 src/fastforward/nn/quantizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index f0118f9..7d1fa4b 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -57,6 +57,10 @@ class Tag:
         # copy here.
         return self
 
+    def __reduce__(self) -> tuple[type[Self], tuple[str]]:
+        # Look up (or create) the tag with the same name when unpickling.
+        return type(self), (self._symbol,)
+
     @typing_override
     def __str__(self) -> str:
         return f"#{self._symbol}"
-- 
2.43.0


From fa14f330ad33113ba984358d7497ed26316d8146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 030/120] fix: keep parameters and metadata when pickling
 quantizers

---
 src/fastforward/nn/quantizer.py | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index 7d1fa4b..a9555bf 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -3,10 +3,11 @@
 
 import collections
 import copy
+import copyreg
 import logging
 
 from types import SimpleNamespace
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterator, Sequence, SupportsIndex
 
 import torch
 
@@ -307,6 +308,11 @@ class Quantizer(torch.nn.Module):
         Args:
             state: Dictionary containing the object's state to restore.
         """
+        if "_parameters" in state:
+            # Complete module state, see `__reduce_ex__`
+            super().__setstate__(state)
+            return
+
         # Restore all attributes from the state dictionary
         for attr, value in state.items():
             setattr(self, attr, value)
@@ -321,13 +327,7 @@ class Quantizer(torch.nn.Module):
                 attributes, excluding inherited attributes from standard library
                 and torch modules.
         """
-        if self._quantizer_overrides:
-            msg = (
-                "quantizer_overrides can not be serialized. Please remove all "
-                "overrides before serialization."
-            )
-            logger.error(msg)
-            raise RuntimeError(msg)
+        self._assert_no_overrides()
         ignored_attribures = set((
             "__initargs_ex__",
             "quant_metadata",  # metadata is assigned at registration
@@ -341,6 +341,26 @@ class Quantizer(torch.nn.Module):
             if key not in ignored_attribures and not isinstance(value, torch.Tensor)
         }
 
+    def _assert_no_overrides(self) -> None:
+        if self._quantizer_overrides:
+            msg = (
+                "quantizer_overrides can not be serialized. Please remove all "
+                "overrides before serialization."
+            )
+            logger.error(msg)
+            raise RuntimeError(msg)
+
+    @typing_override
+    def __reduce_ex__(self, protocol: SupportsIndex) -> tuple[Any, ...]:
+        """Use the complete module state for pickling and copying.
+
+        The state returned by `__getstate__` does not contain any parameters
+        and can only be combined with the arguments of the constructor.
+        """
+        del protocol
+        self._assert_no_overrides()
+        return copyreg.__newobj__, (type(self),), self.__dict__.copy()  # type: ignore[attr-defined]
+
     def __deepcopy__(self, memo: dict[int, Any]) -> Self:
         """Create a deepcopy circumventing custom __setstate_ and __getstate__."""
         if id(self) in memo:
-- 
2.43.0


From e06c5a4f67d8fe410f74425c5351e4fb4742f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 031/120] fix: deepcopy uninitialized quantizers and bind hooks
 to the copy

---
 src/fastforward/nn/quantizer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index a9555bf..3546cbc 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -366,18 +366,26 @@ class Quantizer(torch.nn.Module):
         if id(self) in memo:
             return memo[id(self)]  # type: ignore[no-any-return]
 
+        cls = type(self)
+        new_obj = cls.__new__(cls)
+
+        # The state refers to `self`, e.g., through the registered hooks
+        memo[id(self)] = new_obj
+
+        # UninitializedBuffers do not support deepcopy
+        for buffer in self._buffers.values():
+            if isinstance(buffer, torch.nn.UninitializedBuffer) and id(buffer) not in memo:
+                memo[id(buffer)] = torch.nn.UninitializedBuffer(  # type: ignore[call-arg]
+                    buffer.requires_grad, buffer.device, buffer.dtype
+                )
+
         # Use torch.nn.Module.__getstate__
         state = super().__getstate__()
         new_state = copy.deepcopy(state, memo)
 
-        cls = type(self)
-        new_obj = cls.__new__(cls)
-
         # Use torch.nn.Module.__setstate__ to set state on new_obj
         super(Quantizer, new_obj).__setstate__(new_state)
 
-        memo[id(self)] = new_obj
-
         return new_obj
 
     def quantize(self, data: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From a55e43196e5b631b9716e2e30697bb2a6d398984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 032/120] fix: keep sharing and requires_grad when deepcopying
 quantized tensors

---
 src/fastforward/quantized_tensor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 5ee54a0..4d7de30 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -359,13 +359,19 @@ class QuantizedTensor(torch.Tensor):
         return type(self)(moved_qtensor, quantization_context=self._quantization_context.to(device))
 
     def __deepcopy__(self, memo: dict[Any, Any]) -> Self:
+        if id(self) in memo:
+            return memo[id(self)]  # type: ignore[no-any-return]
         if not self.is_leaf:
             raise RuntimeError(
                 "Only Tensors created explicitly by the user "
                 "(graph leaves) support the deepcopy protocol at the moment"
             )
         quantization_context = copy.deepcopy(self._quantization_context, memo)
-        return type(self)(copy.deepcopy(self.raw_data.detach(), memo), quantization_context)
+        # Copy the data without `memo`: it is a temporary object.
+        result = type(self)(copy.deepcopy(self.raw_data.detach()), quantization_context)
+        result.requires_grad_(self.requires_grad)
+        memo[id(self)] = result
+        return result
 
     def __reduce_ex__(self, proto: int) -> Any:  # type: ignore[override]
         raw_data = self.raw_data.detach()
-- 
2.43.0


From fd86750034ef091dc3d51799412e29510cf117ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 033/120] fix: respect padding_mode in quantized convolutions

---
 src/fastforward/nn/conv.py | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/conv.py b/src/fastforward/nn/conv.py
index b6aedf7..a2f241d 100644
--- a/src/fastforward/nn/conv.py
+++ b/src/fastforward/nn/conv.py
@@ -7,6 +7,41 @@ from typing_extensions import override
 
 from fastforward.nn import QuantizedModule, Quantizer, QuantizerStub
 from fastforward.nn.functional import conv1d, conv2d
+from fastforward.quantization.affine import StaticAffineQuantParams
+from fastforward.quantization.granularity import PerChannel, PerTensor
+from fastforward.quantized_tensor import QuantizedTensor, apply_and_reattach
+
+
+def _pad_input(
+    module: torch.nn.Conv1d | torch.nn.Conv2d, input: torch.Tensor
+) -> tuple[torch.Tensor, str | tuple[int, ...]]:
+    """Apply the padding of modules that do not pad with zeros.
+
+    Returns:
+        The (padded) input and the padding that remains for the convolution.
+    """
+    if module.padding_mode == "zeros":
+        return input, module.padding
+
+    padding = module._reversed_padding_repeated_twice
+
+    def pad(data: torch.Tensor) -> torch.Tensor:
+        return torch.nn.functional.pad(data, padding, mode=module.padding_mode)
+
+    remaining = (0,) * len(module.kernel_size)
+    if isinstance(input, QuantizedTensor):
+        # The padded elements are copies of elements in the input, hence these
+        # use the same quantization parameters if no padded dimension is split.
+        params = input.quant_args()
+        if isinstance(params, StaticAffineQuantParams):
+            granularity = params.granularity
+            spatial = range(input.ndim - len(module.kernel_size), input.ndim)
+            if isinstance(granularity, PerTensor) or (
+                isinstance(granularity, PerChannel)
+                and not any(dim % input.ndim in spatial for dim in granularity.channel_dims)
+            ):
+                return apply_and_reattach(pad, input), remaining
+    return pad(input), remaining
 
 
 class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
@@ -36,12 +71,13 @@ class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
             bias = self.bias_quantizer(self.bias)
         else:
             bias = self.bias
+        input, padding = _pad_input(self, input)
         return conv2d(
             input,
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
@@ -75,12 +111,13 @@ class QuantizedConv1d(QuantizedModule, torch.nn.Conv1d):
             bias = self.bias_quantizer(self.bias)
         else:
             bias = self.bias
+        input, padding = _pad_input(self, input)
         return conv1d(
             input,
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
-- 
2.43.0


From 58e342f364dee090414c67dc144cae87a62ee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 034/120] fix: report plain modules before converting a model

---
 src/fastforward/nn/quantized_module.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 697bd51..376b12e 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -387,8 +387,6 @@ def _missing_modules(
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
-            if module_type is torch.nn.Module:
-                continue
             if issubclass(module_type, Quantizer):
                 continue
             if skip_quantized_modules and issubclass(module_type, QuantizedModule):
-- 
2.43.0


From 09ad90ef06433967ea468542be92fe3844615813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 035/120] fix: convert models that use a module more than once

---
 src/fastforward/nn/quantized_module.py | 56 +++++++++++++++++++-------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 376b12e..dc7935c 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -373,6 +373,24 @@ class SkipQuantization:
 SKIP_QUANTIZATION = SkipQuantization()
 
 
+# Ids of modules converted by the active call to `quantize_model`, including the
+# calls for children. None if there is no active call.
+_converted_modules: set[int] | None = None
+
+
+@contextlib.contextmanager
+def _conversion_scope() -> Iterator[set[int]]:
+    global _converted_modules
+    if _converted_modules is not None:
+        yield _converted_modules
+        return
+    try:
+        _converted_modules = set()
+        yield _converted_modules
+    finally:
+        _converted_modules = None
+
+
 def _missing_modules(
     model: torch.nn.Module,
     module_map: dict[ModuleType, QuantizedModuleType | SkipQuantization],
@@ -381,9 +399,11 @@ def _missing_modules(
     """Find unquantizable modules.
 
     Returns a list of Module types that appear in `model` but for which no
-    quantized counterpart is available.
+    quantized counterpart is available. Modules that the active conversion
+    already converted are ignored.
     """
-    submodule_types = {type(module) for module in model.modules()} | {type(model)}
+    converted = _converted_modules or set()
+    submodule_types = {type(module) for module in model.modules() if id(module) not in converted}
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
@@ -518,21 +538,27 @@ def quantize_model(
     module_map = extra_conversion or {}
     if not ignore_global_module_map:
         module_map = {**quantized_module_map(), **module_map}
-    _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
 
-    if skip_quantized_modules and isinstance(model, QuantizedModule):
-        logger.info(
-            "Skipping requantization of '%s' because skip_quantized_modules=True", type(model)
-        )
-    else:
-        _quantize_module(model, module_map)
+    with _conversion_scope() as converted:
+        if id(model) in converted:
+            # `model` is used more than once
+            return model
+        _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
 
-    if isinstance(model, QuantizedModule) and recursive:
-        model.quantize_children(
-            extra_conversion=extra_conversion,
-            skip_quantized_modules=skip_quantized_modules,
-            ignore_global_module_map=ignore_global_module_map,
-        )
+        converted.add(id(model))
+        if skip_quantized_modules and isinstance(model, QuantizedModule):
+            logger.info(
+                "Skipping requantization of '%s' because skip_quantized_modules=True", type(model)
+            )
+        else:
+            _quantize_module(model, module_map)
+
+        if isinstance(model, QuantizedModule) and recursive:
+            model.quantize_children(
+                extra_conversion=extra_conversion,
+                skip_quantized_modules=skip_quantized_modules,
+                ignore_global_module_map=ignore_global_module_map,
+            )
 
     return model
 
-- 
2.43.0


From 3b671479c7aaea933c72ee0dc5bd0d45030601a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 036/120] fix: compare quantizer metadata with different
 attributes

---
 src/fastforward/nn/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index 3546cbc..a095b51 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -242,7 +242,7 @@ class QuantizerMetadata:
         for key, value in self._kwargs.items():
             if key == "shape" and value is None:
                 continue
-            if other._kwargs[key] != value:
+            if key not in other._kwargs or other._kwargs[key] != value:
                 return False
 
         return True
-- 
2.43.0


From b25e1b01fced462b2d027dfa0f92f8c7dc53959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 037/120] fix: match zero-fragment alternatives and terminate
 on nested wildcards in mpath

---
 src/fastforward/mpath/fragments.py | 10 +++++
 src/fastforward/mpath/selector.py  | 68 ++++++++++++++++++------------
 2 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 739683b..bcf40da 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -34,6 +34,16 @@ class WildcardFragment(Fragment):
     def __str__(self) -> str:
         return "*" if not self.match_multiple else "**"
 
+    @override
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, WildcardFragment):
+            return NotImplemented
+        return self.match_multiple == other.match_multiple
+
+    @override
+    def __hash__(self) -> int:
+        return hash(("__mpath_fragment_hash", type(self), self.match_multiple))
+
 
 class PathFragment(Fragment):
     """Match a specific path.
diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index 5da2405..16791a4 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -196,6 +196,10 @@ class BaseSelector(abc.ABC):
     def has_multi_wildcard_root(self) -> bool:
         """Return True if the root fragment is a multi-wildcard fragment and False otherwise."""
 
+    @abc.abstractmethod
+    def matches_empty(self) -> bool:
+        """Return True if this selector, including its tail, matches zero fragments."""
+
     def simplify(self) -> "BaseSelector":
         """Simplify the selector by removing any redundant or unnecessary fragments.
 
@@ -283,6 +287,14 @@ class Selector(BaseSelector):
 
         return isinstance(self.fragment, WildcardFragment) and self.fragment.match_multiple
 
+    def matches_empty(self) -> bool:
+        """Check if the selector, including its tail, matches zero fragments.
+
+        Returns:
+            bool: True if the selector matches zero fragments, False otherwise.
+        """
+        return self.has_multi_wildcard_root() and (self.next is None or self.next.matches_empty())
+
     def remove_multi_wildcard_root(self) -> BaseSelector | None:
         """Remove the multi-wildcard root from the selector.
 
@@ -333,10 +345,10 @@ class Selector(BaseSelector):
         if not self.next:
             return [_SelectorMatch(self.fragment)], continuations
 
-        # If self.next is equivalent to '**', we do have a match as further
-        # fragments don't have to match, otherwise there is no match at this
-        # point
-        if _is_multi_wildcard(self.next):
+        # If self.next matches zero fragments (e.g., '**'), we do have a match
+        # as further fragments don't have to match, otherwise there is no match
+        # at this point
+        if self.next.matches_empty():
             return [_SelectorMatch(self.fragment)], continuations
         else:
             return [], continuations
@@ -426,6 +438,8 @@ class MultiSelector(BaseSelector):
         all_fragments: tuple["Fragment", ...] = ()
         for selector in self.selectors:
             all_fragments += selector.fragments()
+        if self.next:
+            all_fragments += self.next.fragments()
         return all_fragments
 
     def fragment_list(self) -> FragmentList:
@@ -434,10 +448,10 @@ class MultiSelector(BaseSelector):
         Returns:
             FragmentList: A nested list of fragments.
         """
-        fragment_list: FragmentList = ()
-        for selector in self.selectors:
-            fragment_list += selector.fragment_list()
-        fragment_list = (fragment_list,)
+        # Keep the fragments of different alternatives apart, otherwise different
+        # selectors, e.g., {a/b, c} and {a, b/c}, have the same fragment list.
+        alternatives = tuple(selector.fragment_list() for selector in self.selectors)
+        fragment_list: FragmentList = (alternatives,)
         if self.next:
             fragment_list += self.next.fragment_list()
         return fragment_list
@@ -450,34 +464,32 @@ class MultiSelector(BaseSelector):
         """
         selectors = []
         for selector in self.selectors:
-            if updated_selector := selector.remove_multi_wildcard_root():
-                selectors.append(updated_selector)
+            # Alternatives that are only made up of multi-wildcards match zero
+            # fragments and cannot be left out.
+            selectors.append(selector.remove_multi_wildcard_root() or selector)
         return type(self)(self.next, tuple(selectors))
 
     def has_multi_wildcard_root(self) -> bool:
-        """Check if all selectors have a multi-wildcard root.
+        """Check if all selectors have a multi-wildcard root followed by other fragments.
 
         Returns:
-            bool: True if all selectors have a multi-wildcard root, False otherwise.
+            bool: True if all selectors have a multi-wildcard root that can be
+            removed, False otherwise.
         """
-        return all(selector.has_multi_wildcard_root() for selector in self.selectors)
-
-
-def _is_multi_wildcard(selector: BaseSelector) -> bool:
-    """Check if the selector is equivalent to `**`, i.e., all remaining fragments match zero or more arbitrary modules.
+        return all(
+            selector.has_multi_wildcard_root() and selector.remove_multi_wildcard_root() is not None
+            for selector in self.selectors
+        )
 
-    Args:
-        selector: The selector to check.
+    def matches_empty(self) -> bool:
+        """Check if one of the selectors, followed by the tail, matches zero fragments.
 
-    Returns:
-        bool: True if the selector is equivalent to `**`, False otherwise.
-    """
-    from .fragments import WildcardFragment
-
-    fragments = selector.fragments()
-    return all(
-        isinstance(fragment, WildcardFragment) and fragment.match_multiple for fragment in fragments
-    )
+        Returns:
+            bool: True if the selector matches zero fragments, False otherwise.
+        """
+        if self.next and not self.next.matches_empty():
+            return False
+        return any(selector.matches_empty() for selector in self.selectors)
 
 
 class Fragment(abc.ABC):
-- 
2.43.0


From 78c858bf11e77f4cc014c36644a07e60d0858bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 038/120] fix: escape brackets when printing a regex mpath
 fragment

---
 src/fastforward/mpath/fragments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index bcf40da..685855e 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -97,7 +97,9 @@ class RegexPathFragment(Fragment):
 
     @override
     def __str__(self) -> str:
-        return f"[re:{self._matcher.pattern}]"
+        # Escape brackets, the inverse of `from_raw_string`.
+        pattern = self._matcher.pattern.replace(r"\[", r"\\[").replace("]", r"\]")
+        return f"[re:{pattern}]"
 
     @override
     def __hash__(self) -> int:
-- 
2.43.0


From 3485add5a76fc31071027425c5ce2587354fd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 039/120] fix: ignore whitespace around the class name of an
 mpath class fragment

---
 src/fastforward/mpath/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 685855e..c71a703 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -126,7 +126,7 @@ class ClassFragment(Fragment):
         for `MyClass` on `my_module` and lastly perform an attribute lookup of
         `my_attribute` on `MyClass`.
         """
-        root, *tail = raw_str.split(".")
+        root, *tail = raw_str.strip().split(".")
 
         try:
             obj = context[root]
-- 
2.43.0


From 44ac91f95ff8576050d07b6fcab913e30558b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 040/120] fix: match all names of a child module in mpath
 search

---
 src/fastforward/mpath/_search.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 846ff77..bde834f 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -328,7 +328,10 @@ def search(
         active_item = active_modules.pop()
         selector = active_item.selector
 
-        for child_name, child in active_item.result.module.named_children():
+        # `named_children` leaves out all but the first name of a shared child.
+        for child_name, child in active_item.result.module._modules.items():
+            if child is None:
+                continue
             matches, continuations = selector.matches_and_continuations(child_name, child)
 
             for match in matches:
-- 
2.43.0


From b5a4877d53afa1781bb38c0f1489dcaec04e2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 041/120] fix: call the function in MPathCollection.apply when
 not updating

---
 src/fastforward/mpath/_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index bde834f..97960ae 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -111,7 +111,8 @@ class MPathCollection(abc.Sequence[FilterResult]):
         """
         _results: list[FilterResult] = []
         for result in self._results:
-            if update and (new_module := func(result.full_name, result.module)) is not None:
+            new_module = func(result.full_name, result.module)
+            if update and new_module is not None:
                 result = result.update_module(new_module, safe=safe)
             _results.append(result)
         self._results = _results
-- 
2.43.0


From c2f2a530d96ba4899cb9c5a1c11e19ed404783a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 042/120] fix: restore the overridden mpath extension on exit

---
 src/fastforward/mpath/_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index 6c06516..23c2be0 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -181,14 +181,18 @@ _QueryExtension: TypeAlias = type[MpathQueryExtension] | type[MpathQueryContextu
 
 
 class QueryExtensionContext:
-    def __init__(self, tag: str) -> None:
+    def __init__(self, tag: str, overridden: "_QueryExtension | None" = None) -> None:
         self._tag = tag
+        self._overridden = overridden
 
     def __enter__(self) -> Generator[None, None, None]:
         yield
 
     def __exit__(self, exc_type, exc_value, traceback):  # type: ignore[no-untyped-def]
-        del Parser.fragment_extensions[self._tag]
+        if self._overridden is not None:
+            Parser.fragment_extensions[self._tag] = self._overridden
+        else:
+            del Parser.fragment_extensions[self._tag]
 
 
 def register_mpath_query_extension(
@@ -220,8 +224,9 @@ def register_mpath_query_extension(
         )
         raise TypeError(msg)
 
+    overridden = Parser.fragment_extensions.get(tag)
     Parser.fragment_extensions[tag] = extension
-    return QueryExtensionContext(tag=tag)
+    return QueryExtensionContext(tag=tag, overridden=overridden)
 
 
 def mpath_query_extension(
-- 
2.43.0


From ff705f8707a2dca463a2006b4b96f8508cc6f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 043/120] fix: parse mpath names that start with a digit

---
 src/fastforward/mpath/_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index 23c2be0..6d6343d 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -109,9 +109,11 @@ def _tokengen(src: str) -> Iterator[Token]:
             continue
 
         if char in "0123456789":
-            while pos < len(src) and src[start : pos + 1].isdigit():
+            # Module names may start with a digit, e.g., 1x1_conv.
+            while pos < len(src) and f"_{src[start : pos + 1]}".isidentifier():
                 increment()
-            yield token(start, pos, TokenType.DIGIT)
+            is_digit = src[start:pos].isdigit()
+            yield token(start, pos, TokenType.DIGIT if is_digit else TokenType.IDENTIFIER)
             continue
 
         if char == '"':
-- 
2.43.0


From b569073b5d88f04518421af6fda56651cd5abee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 044/120] fix: accept quantizers in QuantizerCollection.append

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 9257a33..7c67ff7 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -143,7 +143,7 @@ class QuantizerCollection(mpath.MPathCollection):
         Args:
             item: Filter result to add to the collection
         """
-        if not isinstance(item, Quantizer):
+        if not isinstance(item.module, Quantizer):
             msg = f"Can only insert a FilterResult of a Quantizer module to {type(self).__name__}"
             raise ValueError(msg)
         super().append(item)
-- 
2.43.0


From cf3092ce9a051267a9b0f15b6a684a1b2bfcfb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 045/120] fix: resolve class names of rule queries where the
 rule is added

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 7c67ff7..a5f3d8e 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -315,7 +315,7 @@ class QuantizationConfig:
                 initializer.
         """
         if isinstance(query, str):
-            query = mpath.query(query, context=mpath.local_context())
+            query = mpath.query(query, context=mpath.caller_context())
         self._rules.append(_QuantConfigRule(query, factory, kwargs))
         return self
 
-- 
2.43.0


From 7644eb9d2b5c61a238b46eea66b0799200d9f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 046/120] fix: print rules with callable objects as factory

---
 src/fastforward/quantization/quant_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index a5f3d8e..5147952 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -255,7 +255,8 @@ class _QuantConfigRule:
             kwargs = ", ".join(f"{k}={v}" for k, v in self.kwargs.items())
             factory_str = f"{self.factory.__name__}({kwargs})"
         else:
-            factory_str = f"{self.factory.__name__}(<module_name>, <current_quantizer>)"
+            name = getattr(self.factory, "__name__", type(self.factory).__name__)
+            factory_str = f"{name}(<module_name>, <current_quantizer>)"
         return f"{str(self.query)} => {factory_str}"
 
 
-- 
2.43.0


From 905d13ec1ca6614e1633edd1d666491aa038b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 047/120] fix: remove freeze overrides when leaving
 freeze_parameters

---
 src/fastforward/quantization/freeze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 0a66805..fd5de4b 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -114,7 +114,7 @@ def freeze_parameters(
         for submodule in module.modules():
             for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
                 override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                quantizer.register_override(override)
+                hooks.append(quantizer.register_override(override))
 
     try:
         # Disable strict quantization because override returns 'normal' tensors.
-- 
2.43.0


From c60532b74305194fdf9c11a949499056c030edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 048/120] fix: freeze only parameters and keep their precision

---
 src/fastforward/quantization/freeze.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index fd5de4b..49402af 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -38,7 +38,12 @@ class _FreezeParametersOverride:
         """
         # Extract and quantize input data
         input_data = _extract_input(*args, **kwargs)
-        quantized = callback(input_data).dequantize()
+        quantized = callback(input_data)
+
+        if not isinstance(input_data, torch.nn.Parameter):
+            # Only parameters are frozen, the quantizer remains in place for
+            # other inputs such as activations.
+            return cast(torch.Tensor, quantized)
 
         if quantized is input_data:
             # When the quantizer callback returns the input unchanged (e.g., when
@@ -47,10 +52,11 @@ class _FreezeParametersOverride:
             # since they would be no-ops.
             return cast(torch.Tensor, input_data)
 
-        # Update parameter in-place if input is a Parameter
-        if isinstance(input_data, torch.nn.Parameter):
-            with torch.no_grad():
-                input_data.copy_(quantized)
+        # Update parameter in-place
+        if isinstance(quantized, ff.quantized_tensor.QuantizedTensor):
+            quantized = quantized.dequantize()
+        with torch.no_grad():
+            input_data.copy_(quantized)
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
-- 
2.43.0


From 54e601742bf1115aaea7e0d89cf4051595f1d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 049/120] fix: freeze parameters of all modules that share a
 quantizer

---
 src/fastforward/quantization/freeze.py | 40 +++++++++++++++++++-------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 49402af..af45813 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -14,8 +14,8 @@ import fastforward as ff
 class _FreezeParametersOverride:
     """Override that quantizes parameters in-place and replaces quantizers with stubs."""
 
-    def __init__(self, module: torch.nn.Module, remove_quantizer: bool) -> None:
-        self._module = module
+    def __init__(self, modules: list[torch.nn.Module], remove_quantizer: bool) -> None:
+        self._modules = modules
         self._remove_quantizer = remove_quantizer
 
     def __call__(
@@ -60,16 +60,32 @@ class _FreezeParametersOverride:
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
+            self._replace_by_stub(quantizer, input_data)
+
+        return input_data
+
+    def _replace_by_stub(self, quantizer: "ff.nn.Quantizer", param: torch.nn.Parameter) -> None:
+        """Replace `quantizer` by a stub in the modules that own `param`.
+
+        A quantizer may be shared between modules and parameters, the other
+        parameters may still have to be frozen.
+        """
+        owners = [
+            module
+            for module in self._modules
+            if any(param is other for other in module.parameters(recurse=False))
+        ]
+        for module in owners or self._modules:
             for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
-                self._module, recurse=False
+                module, recurse=False
             ):
                 if other_quantizer is quantizer:
                     stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
-                    setattr(self._module, name, stub)
+                    setattr(module, name, stub)
+                    if not owners:
+                        return
                     break
 
-        return input_data
-
 
 def _extract_input(data: torch.Tensor, *args: Any, **kwargs: Any) -> torch.Tensor:
     del args, kwargs
@@ -116,11 +132,13 @@ def freeze_parameters(
     """
     hooks: list[ff.overrides.override.OverrideHandle] = []
     modules = [modules] if isinstance(modules, torch.nn.Module) else modules
-    for module in modules:
-        for submodule in module.modules():
-            for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
-                override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                hooks.append(quantizer.register_override(override))
+    owners: dict[ff.nn.Quantizer, list[torch.nn.Module]] = {}
+    for submodule in dict.fromkeys(sub for module in modules for sub in module.modules()):
+        for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
+            owners.setdefault(quantizer, []).append(submodule)
+    for quantizer, quantizer_owners in owners.items():
+        override = _FreezeParametersOverride(quantizer_owners, remove_quantizer=remove_quantizers)
+        hooks.append(quantizer.register_override(override))
 
     try:
         # Disable strict quantization because override returns 'normal' tensors.
-- 
2.43.0


From 64688a5a65cf2661a7694c9a9f45befe19ccd877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 050/120] fix: fuse the weights of all modules that share a
 quantizer

---
 src/fastforward/quantization/fuse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 83d6735..16eb4ce 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -80,12 +80,14 @@ class ConventionDiscovery:
             if quantizer.is_stub():
                 continue
 
-            parent = result.parent
-            weight = getattr(parent, self._weight_attr, None)
-            if not isinstance(weight, torch.nn.Parameter):
-                continue
-
-            yield parent, self._weight_attr, quantizer
+            # The result holds a single parent, but a quantizer may be shared.
+            for parent in model.modules():
+                if getattr(parent, result.parent_attribute, None) is not quantizer:
+                    continue
+
+                weight = getattr(parent, self._weight_attr, None)
+                if isinstance(weight, torch.nn.Parameter):
+                    yield parent, self._weight_attr, quantizer
 
 
 def _fuse_target(
-- 
2.43.0


From 64ede37c097525f621e631c7059d6ec7a6ad83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 051/120] fix: keep the precision of weights that are not
 quantized while fusing

---
 src/fastforward/quantization/fuse.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 16eb4ce..50c0362 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -90,6 +90,18 @@ class ConventionDiscovery:
                     yield parent, self._weight_attr, quantizer
 
 
+def _qdq_weight(weight: torch.Tensor, quantizer: Quantizer) -> torch.Tensor:
+    """Quantize-dequantize `weight`, returns `weight` itself if `quantizer` is a no-op."""
+    # Disable strict quantization: the quantizer returns a QuantizedTensor which
+    # we immediately dequantize to a regular tensor.
+    with ff.strict_quantization(False):
+        qdq_weight = quantizer(weight)
+        # `dequantize` on a regular tensor changes its data type.
+        if isinstance(qdq_weight, ff.quantized_tensor.QuantizedTensor):
+            qdq_weight = qdq_weight.dequantize()
+    return qdq_weight
+
+
 def _fuse_target(
     module: torch.nn.Module,
     weight_attr: str,
@@ -107,10 +119,7 @@ def _fuse_target(
             `QuantizerStub` after snapping the weight.
     """
     weight = getattr(module, weight_attr)
-    # Disable strict quantization: the quantizer returns a QuantizedTensor which
-    # we immediately dequantize to a regular tensor.
-    with ff.strict_quantization(False):
-        qdq_weight = quantizer(weight).dequantize()
+    qdq_weight = _qdq_weight(weight, quantizer)
 
     if qdq_weight is weight:
         # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.
@@ -179,8 +188,7 @@ def _check_tied_weight_targets(
         weight = getattr(group[0][0], group[0][1])
         reference: torch.Tensor | None = None
         for module, weight_attr, quantizer in group:
-            with ff.strict_quantization(False):
-                qdq_weight = quantizer(weight).dequantize()
+            qdq_weight = _qdq_weight(weight, quantizer)
             if reference is None:
                 reference = qdq_weight
             elif not torch.equal(reference, qdq_weight):
-- 
2.43.0


From 21f7755e7b141f1edc655e8a2ef3b25c1d2a78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 052/120] fix: snap tied weights only once while fusing

---
 src/fastforward/quantization/fuse.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 50c0362..7546e5b 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -21,7 +21,7 @@ callers.
 """
 
 from collections import defaultdict
-from typing import Iterator, Protocol, runtime_checkable
+from typing import Any, Iterator, Protocol, runtime_checkable
 
 import torch
 
@@ -90,6 +90,14 @@ class ConventionDiscovery:
                     yield parent, self._weight_attr, quantizer
 
 
+def _weight_key(weight: torch.Tensor) -> tuple[Any, ...]:
+    """Key that is equal for weights that are tied, i.e., share the same values."""
+    if weight.data_ptr() == 0:
+        # The weight holds no data.
+        return (id(weight),)
+    return (weight.data_ptr(), weight.shape, weight.stride(), weight.dtype)
+
+
 def _qdq_weight(weight: torch.Tensor, quantizer: Quantizer) -> torch.Tensor:
     """Quantize-dequantize `weight`, returns `weight` itself if `quantizer` is a no-op."""
     # Disable strict quantization: the quantizer returns a QuantizedTensor which
@@ -108,6 +116,7 @@ def _fuse_target(
     quantizer: Quantizer,
     *,
     stub_quantizer: bool,
+    fused: set[tuple[Any, ...]],
 ) -> None:
     """Snap a single weight to its QDQ values in-place, optionally stubbing.
 
@@ -117,6 +126,8 @@ def _fuse_target(
         quantizer: The quantizer producing the QDQ values.
         stub_quantizer: If True, replace the weight quantizer with a
             `QuantizerStub` after snapping the weight.
+        fused: The weights that are already snapped, see `_weight_key`. These
+            are not snapped again. `module`'s weight is added.
     """
     weight = getattr(module, weight_attr)
     qdq_weight = _qdq_weight(weight, quantizer)
@@ -125,8 +136,10 @@ def _fuse_target(
         # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.
         return
 
-    with torch.no_grad():
-        weight.copy_(qdq_weight)
+    if _weight_key(weight) not in fused:
+        with torch.no_grad():
+            weight.copy_(qdq_weight)
+        fused.add(_weight_key(weight))
 
     if stub_quantizer:
         _stub_target(module, quantizer)
@@ -161,7 +174,7 @@ def _check_tied_weight_targets(
     at least one of the two modules, so refuse rather than corrupt the weight.
 
     Tied weights sharing a single quantizer instance, or quantizers that produce
-    identical QDQ values, are fused normally: the repeated write is a no-op.
+    identical QDQ values, are fused normally.
 
     Args:
         model: The model being fused, used to report qualified module names.
@@ -171,10 +184,10 @@ def _check_tied_weight_targets(
         QuantizationError: If a tied weight is snapped by quantizers that
             disagree on the grid.
     """
-    by_storage: dict[tuple[int, torch.Size], list[WeightQuantizerTarget]] = defaultdict(list)
+    by_storage: dict[tuple[Any, ...], list[WeightQuantizerTarget]] = defaultdict(list)
     for module, weight_attr, quantizer in targets:
         weight = getattr(module, weight_attr)
-        by_storage[(weight.data_ptr(), weight.shape)].append((module, weight_attr, quantizer))
+        by_storage[_weight_key(weight)].append((module, weight_attr, quantizer))
 
     module_names = {id(submodule): name for name, submodule in model.named_modules()}
 
@@ -247,8 +260,9 @@ def fuse_qdq_weights(
     discovery = ConventionDiscovery() if discovery is None else discovery
     targets = list(discovery(model))
     _check_tied_weight_targets(model, targets)
+    fused: set[tuple[Any, ...]] = set()
     for module, weight_attr, quantizer in targets:
-        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers)
+        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers, fused=fused)
 
 
 def find_weight_quantizers(
-- 
2.43.0


From 0ed9d21b4e89e0264877a8e4f7701e7da8758bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 053/120] fix: refuse to fuse conflicting views of the same
 weight

---
 src/fastforward/quantization/fuse.py | 44 ++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 7546e5b..e1f6cd0 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -218,6 +218,50 @@ def _check_tied_weight_targets(
                 )
                 raise QuantizationError(msg)
 
+    _check_overlapping_weights([group[0] for group in by_storage.values()], module_names)
+
+
+def _check_overlapping_weights(
+    targets: list[WeightQuantizerTarget], module_names: dict[int, str]
+) -> None:
+    """Reject different views of the same data that are snapped to different grids.
+
+    Tied weights may be different views of a single storage, e.g., if one weight
+    is the transpose of another. Fuse these on a copy of the storage and verify
+    that every weight holds its own QDQ values.
+    """
+    by_storage: dict[tuple[int, torch.dtype], list[WeightQuantizerTarget]] = defaultdict(list)
+    for module, weight_attr, quantizer in targets:
+        weight = getattr(module, weight_attr)
+        if weight.data_ptr() != 0 and weight.layout == torch.strided:
+            key = (weight.untyped_storage().data_ptr(), weight.dtype)
+            by_storage[key].append((module, weight_attr, quantizer))
+
+    for group in by_storage.values():
+        if len(group) == 1:
+            continue
+
+        weights = [getattr(module, weight_attr).detach() for module, weight_attr, _ in group]
+        qdq_weights = [_qdq_weight(w, target[2]).detach() for w, target in zip(weights, group)]
+        storage_size = weights[0].untyped_storage().nbytes() // weights[0].element_size()
+        data = torch.as_strided(weights[0], (storage_size,), (1,), 0).clone()
+        views = [data.as_strided(w.shape, w.stride(), w.storage_offset()) for w in weights]
+        for view, qdq_weight in zip(views, qdq_weights):
+            view.copy_(qdq_weight)
+
+        if any(not torch.equal(v, qdq.to(v.dtype)) for v, qdq in zip(views, qdq_weights)):
+            names = ", ".join(
+                f"{module_names.get(id(module), type(module).__name__)}.{weight_attr}"
+                for module, weight_attr, _ in group
+            )
+            msg = (
+                f"Cannot fuse QDQ weights: the weights [{names}] are views of the same data, "
+                "but their weight quantizers snap this data to different grids, so fusing "
+                "would leave it correct for at most one of them. Untie the weights (assign "
+                "each module its own copy of the parameter)."
+            )
+            raise QuantizationError(msg)
+
 
 def fuse_qdq_weights(
     model: torch.nn.Module,
-- 
2.43.0


From b221e2d48cc8f888b51dd22aefad07acc6ba7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 054/120] fix: do not change calibration data in GPTQ

---
 src/fastforward/quantization/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index de3ea4f..484614a 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -306,7 +306,8 @@ def calculate_hessian(
         hessian.mul_(n_samples / (n_samples + x.shape[1]))
         n_samples += x.shape[1]
 
-        x.mul_(math.sqrt(2.0 / n_samples))
+        # `x` may share its data with `activation`, do not change it in-place.
+        x = x * math.sqrt(2.0 / n_samples)
         hessian.add_(x @ x.transpose(0, 1))
 
     # Handle dead neurons (zero diagonal in Hessian).
-- 
2.43.0


From dd021ec78a31ef86931b219b3549dfcd612a8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 055/120] fix: recompute group scales in GPTQ from all
 corrected weights

---
 src/fastforward/quantization/gptq.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index 484614a..6652753 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -108,7 +108,15 @@ def gptq(
             global_col = i + j
             if recompute_scales and global_col % col_block_size == 0:
                 col_block_idx = global_col // col_block_size
-                group_weights = weights[:, global_col : global_col + col_block_size]
+                group_end = global_col + col_block_size
+                group_weights = weights[:, global_col:group_end].clone()
+                # Include the errors of the columns in the current block, these are not
+                # yet propagated to `weights`.
+                in_block = min(block_end, group_end) - global_col
+                group_weights[:, :in_block] = weights_block[:, j : j + in_block]
+                group_weights[:, in_block:] -= (
+                    errors[:, i:global_col] @ hessian_inverse[i:global_col, block_end:group_end]
+                )
                 # Rows are the outer dim, so reshape to `(num_row_blocks, -1)` groups each
                 # row-block's elements contiguously — matches the layout column_quantizer
                 # indexes into further down.
-- 
2.43.0


From 46f20be5b8d16978c7848af97fbc6d85360db029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 056/120] fix: store the values of constants in layer-wise
 execution

---
 src/fastforward/_orchestration/instruction_engine.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index ad38f3d..c10b1e3 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -342,6 +342,9 @@ class StoreValue(Instruction):
     def uses(self) -> Iterator[_BaseRef]:  # noqa: D102
         return iter([self.target])
 
+    def produces(self) -> Iterator[_BaseRef]:  # noqa: D102
+        return iter([self.target])
+
 
 @dataclasses.dataclass(frozen=True)
 class LoadAttribute(Instruction):
@@ -625,8 +628,12 @@ def _propagate_contexts(graph: GraphModule, order: list[NodeRef]) -> Mapping[_Ba
     for node_ref in reversed(order):
         node = graph.node(node_ref)
 
+        # Constants are stored separately for each context that reads them.
+        arg_bases = (arg.unwrap_ref() for arg in (*node.args, *node.kwargs.values()))
+        consts = (base for base in arg_bases if isinstance(base, Const))
+
         # Node arguments represent parents in the graph. Propagate contexts to them.
-        for node_input in graph.node_inputs(node_ref):
+        for node_input in (*graph.node_inputs(node_ref), *consts):
             node_contexts[node_input] |= node_contexts[node_ref]
 
             if node.delegate is not None:
@@ -1228,7 +1235,8 @@ class InstructionScheduler:
             case Const():
                 # Store the value of the constant directly to the register.
                 contexts = list(self._node_contexts.get(ref, set())) or [DEFAULT_CONTEXT]
-                store_instruction = StoreValue(target=ref, value=ref, contexts=contexts)
+                value = ActivationDataset([ref.value])
+                store_instruction = StoreValue(target=ref, value=value, contexts=contexts)
                 return ref, [store_instruction]
             case AttributeRef(reference=attr_ref, attribute=attr):
                 base_ref, base_instructions = self._schedule_ref_id(attr_ref)
-- 
2.43.0


From 7d0734ffe6b52c270bced444380b6abf4a2ced03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 057/120] fix: recompile a graph when inputs or outputs are
 added

---
 src/fastforward/_orchestration/graph_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 7540431..bc84605 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -491,6 +491,7 @@ class GraphModule(torch.nn.Module):
         if name in self._inputs:
             msg = f"Duplicate input name: {name}"
             raise ValueError(msg)
+        self._invalidate_caches()
         ref = InputRef(uuid.uuid4(), name)
         self._inputs[name] = ref
         return ref
@@ -512,6 +513,7 @@ class GraphModule(torch.nn.Module):
                         raise ValueError(msg)
 
                     # Add the original node (not the resolved value) to the outputs.
+                    self._invalidate_caches()
                     self._outputs.append(node)
 
                 case _:
-- 
2.43.0


From 932a758050ba748b96736e26dcc2b19c5ac62997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 058/120] fix: broadcast graph outputs that do not depend on
 the inputs

---
 src/fastforward/_orchestration/instruction_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index c10b1e3..f9d3d1c 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -481,7 +481,9 @@ class ReturnOutputs(Instruction):
                 context_outputs[context].append(dataset)
 
         context_datasets = {
-            context: tuple(ActivationDataset.merge(datasets).batches)
+            context: tuple(
+                ActivationDataset.merge(ActivationDataset.broadcast(datasets)).batches
+            )
             for context, datasets in context_outputs.items()
         }
 
-- 
2.43.0


From 8ddf4363c1810f2207f5a5cf6f15dfb26c32cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 059/120] fix: pass structured values to nested graphs as a
 single batch

---
 src/fastforward/_orchestration/graph_module.py       |  4 +++-
 src/fastforward/_orchestration/instruction_engine.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index bc84605..059be4e 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -263,11 +263,13 @@ def _sanitize_inputs(
       - element is a tuple/list of length `len(input_names)`
       - element exposes `input_names` as attributes (dataclass, namedtuple, ...)
     """
+    from fastforward._orchestration.instruction_engine import ActivationDataset
+
     if len(args) != 1 or kwargs:
         return args, kwargs
 
     (single,) = args
-    if isinstance(single, torch.Tensor):
+    if isinstance(single, (torch.Tensor, ActivationDataset)):
         return args, kwargs
 
     try:
diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index f9d3d1c..25d2c3e 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -412,11 +412,20 @@ class CallModule(Instruction):
                     # called exactly once with no arguments.
                     outputs = [self.module()]
                 else:
-                    outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]
+                    outputs = [self._call(args, kwargs) for args, kwargs in bundle]
             results[context] = ActivationDataset(outputs)
 
         register.store_all(self.target, results)
 
+    def _call(self, args: tuple[Any, ...], kwargs: dict[str, Any]) -> Any:
+        """Call the module on a single batch."""
+        if isinstance(self.module, GraphModule):
+            # A GraphModule interprets sequences as multiple batches, hence explicitly
+            # mark each (possibly structured) value as a single batch.
+            args = tuple(ActivationDataset([arg]) for arg in args)
+            kwargs = {name: ActivationDataset([arg]) for name, arg in kwargs.items()}
+        return self.module(*args, **kwargs)
+
     def uses(self) -> Iterator[_BaseRef]:  # noqa: D102
         yield from self.args
         yield from self.kwargs.values()
-- 
2.43.0


From a218016bbca690810c51b983066c70a88451e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 060/120] fix: cut graphs into regions by references instead of
 names and positions

- items of items (x[0][1]), items with numeric string keys, and nodes with the
  same name as an input were bound to other values
- outputs of folds were assigned in order of insertion instead of in the order
  in which the original module returns them
- items that are graph outputs were indexed twice
- regions were executed before nodes they depend on
- a fold and one of its nodes could both be regions, both were executed
- delegates of modules that occur more than once were attached to any of these
---
 .../_orchestration/graph_module.py            | 313 +++++++++++-------
 1 file changed, 185 insertions(+), 128 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 059be4e..ba23731 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -358,6 +358,9 @@ class GraphModule(torch.nn.Module):
         # Binding represents fold "args", in the order its forward() expects them.
         self._fold_bindings: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
 
+        # References to the values a fold returns, in the order its forward() returns them.
+        self._fold_outputs: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -709,6 +712,10 @@ class GraphModule(torch.nn.Module):
                     self._fold_bindings[node.id] = tuple(
                         remap_reference(old_reference=b) for b in inner_binding
                     )
+                if (inner_outputs := subgraph._fold_outputs.get(node.id)) is not None:
+                    self._fold_outputs[node.id] = tuple(
+                        remap_reference(old_reference=o) for o in inner_outputs
+                    )
 
         # Return the in-lined subgraph outputs in stored order to preserve positional semantics.
         new_output_refs = []
@@ -717,6 +724,9 @@ class GraphModule(torch.nn.Module):
             assert isinstance(remapped, (NodeRef, AttributeRef))
             new_output_refs.append(remapped)
 
+        if fold_ref is not None:
+            self._fold_outputs[fold_ref.id] = tuple(new_output_refs)
+
         return tuple(new_output_refs)
 
     def forward(self, *args: Any, **kwargs: Any) -> Any:
@@ -765,6 +775,54 @@ class GraphModule(torch.nn.Module):
         return outputs
 
 
+def _substitute_reference(ref: _BaseRef, mapping: Mapping[_BaseRef, _BaseRef]) -> _BaseRef:
+    """Replace the outermost part of `ref` that occurs in `mapping`."""
+    if ref in mapping:
+        return mapping[ref]
+    match ref:
+        case AttributeRef(reference=reference):
+            return dataclasses.replace(ref, reference=_substitute_reference(reference, mapping))
+        case Const():
+            return ref
+        case _:
+            msg = f"Reference {ref!r} is not available"
+            raise ValueError(msg)
+
+
+def _external_inputs(graph: GraphModule, path_nodes: Collection[NodeRef]) -> dict[str, _BaseRef]:
+    """Return the references read by `path_nodes` that are produced outside of `path_nodes`.
+
+    The references are returned in order of use and are keyed by unique (input) names.
+    """
+
+    def _name(ref: _BaseRef) -> str:
+        if isinstance(ref, AttributeRef):
+            return f"{_name(ref.reference)}[{ref.attribute}]"
+        assert isinstance(ref, NamedRef)
+        return ref.name
+
+    path_ids = {ref.id for ref in path_nodes}
+    refs: dict[_BaseRef, None] = {}
+    for node_id, node in graph._nodes.items():
+        if node_id not in path_ids:
+            continue
+        for arg in (*node.args, *node.kwargs.values()):
+            base = arg.unwrap_ref()
+            if isinstance(base, NamedRef) and base.id not in path_ids:
+                refs[arg] = None
+
+    inputs: dict[str, _BaseRef] = {}
+    for ref in refs:
+        name = unique_name = _name(ref)
+        for suffix in itertools.count(1):
+            if unique_name not in inputs:
+                break
+            unique_name = f"{name}_{suffix}"
+        inputs[unique_name] = ref
+
+    return inputs
+
+
 def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule:
     """Build and return a standalone GraphModule that contains exactly `path_nodes`.
 
@@ -778,89 +836,45 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
     Raises:
         ValueError: If proposed subgraph has no external inputs.
     """
-    node_ids: set[uuid.UUID] = {ref.id for ref in path_nodes}
-
-    def _external_dependencies(node: Node) -> list[str]:
-        external_dependencies = []
-        for arg in (*node.args, *node.kwargs.values()):
-            base = arg.unwrap_ref()
-            is_external = isinstance(base, InputRef) or (
-                isinstance(base, NodeRef) and base.id not in node_ids
-            )
-            if not is_external:
-                continue
-
-            if isinstance(arg, AttributeRef):
-                external_dependencies.append(f"{base.name}[{arg.attribute}]")
-            else:
-                external_dependencies.append(str(base.name))
-
-        return external_dependencies
-
-    external_inputs = []
-    seen = set()
-    for node in path_nodes:
-        for external_dependency in _external_dependencies(graph._nodes[node.id]):
-            if external_dependency not in seen:
-                external_inputs.append(external_dependency)
-                seen.add(external_dependency)
+    # Use the order of the graph, the iteration order of sets is arbitrary.
+    path_refs = [ref for ref in graph._node_refs.values() if ref in path_nodes]
 
     # Determine which nodes must be exposed as subgraph outputs.
     # These are either (1) nodes that are outside of the original graph or
     # (2) nodes required by external nodes outside of the subgraph.
-    external_outputs = []
-    seen_outputs: set[NodeRef | AttributeRef] = set()
+    external_outputs: dict[NodeRef | AttributeRef, None] = {}
 
     # (1) Include original graph outputs that are produced within this subgraph.
     for ref in graph._outputs:
-        if (base := ref.unwrap_ref()) in path_nodes:
-            if ref not in seen_outputs:
-                external_outputs.append(ref)
-                seen_outputs.add(ref)
+        if ref.unwrap_ref() in path_nodes:
+            external_outputs[ref] = None
 
     # (2) Include internal nodes that are used by nodes outside the subgraph.
-    for internal_ref in path_nodes:
-        for dependent_ref in graph.node_outputs(internal_ref):
-            if dependent_ref in path_nodes:
-                continue
-
-            # External nodes (outside the subgraph) that depend on internal nodes (inside the subgraph).
-            external_node = graph._nodes[dependent_ref.id]
-            for arg in itertools.chain(external_node.args, external_node.kwargs.values()):
-                base = arg.unwrap_ref()
-                if isinstance(base, NodeRef) and base.id == internal_ref.id:
-                    if base not in seen_outputs:
-                        external_outputs.append(base)
-                        seen_outputs.add(base)
+    for internal_ref in path_refs:
+        if any(dependent not in path_nodes for dependent in graph.node_outputs(internal_ref)):
+            external_outputs[internal_ref] = None
 
     # Connect the inputs, nodes, and outputs to a new subgraph.
     subgraph = GraphModule()
 
-    remap_reference = functools.partial(
-        remap_subgraph_reference,
-        new_context={name: subgraph.add_input(name) for name in external_inputs},
-        subgraph_nodes={ref.name: ref.id for ref in path_nodes},
-    )
+    mapping: dict[_BaseRef, _BaseRef] = {ref: ref for ref in path_refs}
+    for name, external_ref in _external_inputs(graph, path_nodes).items():
+        mapping[external_ref] = subgraph.add_input(name)
 
-    for node_id in node_ids:
-        source_node = graph._nodes[node_id]
+    for path_ref in path_refs:
+        source_node = graph._nodes[path_ref.id]
         subgraph.add_node(
             name=source_node.name,
             target=source_node.target,
-            args=[remap_reference(old_reference=arg) for arg in source_node.args],
+            args=[_substitute_reference(arg, mapping) for arg in source_node.args],
             kwargs={
-                key: remap_reference(old_reference=arg) for key, arg in source_node.kwargs.items()
+                key: _substitute_reference(arg, mapping) for key, arg in source_node.kwargs.items()
             },
             op=source_node.op,
             node_id=source_node.id,
         )
 
-    remapped_outputs: list[NodeRef | AttributeRef] = []
-    for ref in external_outputs:
-        remapped = remap_reference(old_reference=ref)
-        assert isinstance(remapped, (NodeRef, AttributeRef))
-        remapped_outputs.append(remapped)
-    subgraph.add_output(*remapped_outputs)
+    subgraph.add_output(*external_outputs)
 
     return subgraph
 
@@ -1088,24 +1102,57 @@ class SubgraphSpec:
 OutputNode = NodeRef | GraphModule
 
 
+class _InterdependentNodesError(ValueError):
+    """Raised when nodes depend on each other and hence cannot be ordered."""
+
+    def __init__(self, nodes: list[OutputNode]) -> None:
+        super().__init__("Regions depend on each other and cannot be executed as separate units")
+        self.nodes = nodes
+
+
 def node_order(graph: GraphModule, nodes: list[OutputNode]) -> list[OutputNode]:
-    """Sort nodes into a topologically-valid sequence relative to `graph`."""
-    topo = {ref: i for i, ref in enumerate(topological_sort(graph))}
+    """Sort nodes into a topologically-valid sequence relative to `graph`.
 
-    def _sort_key(node: OutputNode) -> int:
+    Raises:
+        ValueError: If there is no such sequence, i.e., nodes depend on each other.
+    """
+    topo = {ref.id: i for i, ref in enumerate(topological_sort(graph))}
+
+    def _members(node: OutputNode) -> set[uuid.UUID]:
         match node:
             case NodeRef() if node.id in graph._fold_ids:
-                leaves = graph.fold_outputs(node)
-                return max(topo[leaf] for leaf in leaves) if leaves else 0
+                return {leaf.id for leaf in graph.leaf_nodes(node)} | {node.id}
             case NodeRef():
-                return topo[node]
+                return {node.id}
             case GraphModule() as subgraph:
-                bases = [ref.unwrap_ref() for ref in subgraph._outputs]
-                return max(
-                    topo[graph._node_refs[base.id]] for base in bases if isinstance(base, NodeRef)
-                )
+                return set(subgraph._nodes)
+
+    members = [_members(node) for node in nodes]
+    owner = {node_id: i for i, node_ids in enumerate(members) for node_id in node_ids}
+    dependencies = [
+        {
+            owner[dependency.id]
+            for node_id in node_ids
+            for dependency in graph.node_inputs(graph._node_refs[node_id])
+        }
+        - {i}
+        for i, node_ids in enumerate(members)
+    ]
+    position = [
+        max((topo[node_id] for node_id in node_ids if node_id in topo), default=0)
+        for node_ids in members
+    ]
+
+    order: list[int] = []
+    remaining = set(range(len(nodes)))
+    while remaining:
+        ready = [i for i in remaining if not dependencies[i] & remaining]
+        if not ready:
+            raise _InterdependentNodesError([nodes[i] for i in sorted(remaining)])
+        order.append(min(ready, key=lambda i: (position[i], i)))
+        remaining.remove(order[-1])
 
-    return sorted(nodes, key=_sort_key)
+    return [nodes[i] for i in order]
 
 
 def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRef]:
@@ -1142,18 +1189,25 @@ def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRe
     return complement
 
 
-def _resolve_subgraph_input(name: str, context: dict[str, _BaseRef]) -> _BaseRef:
-    """Look up a subgraph input name (possibly ``'name[attr]'``) in the context."""
-    base, sep, rest = name.partition("[")
-    if not sep or not rest.endswith("]"):
-        return context[name]
-    inner = rest[:-1]
-    base_ref = context[base]
-    try:
-        return base_ref[int(inner)]
-    except ValueError:
-        attr_ref: _BaseRef = getattr(base_ref, inner)
-        return attr_ref
+def _ordered_units(
+    graph: GraphModule, targets: list[OutputNode], complement: list[NodeRef]
+) -> list[OutputNode]:
+    """Order `targets` and `complement`, unfold nodes of `complement` if required."""
+    while True:
+        try:
+            return node_order(graph, [*targets, *complement])
+        except _InterdependentNodesError as error:
+            # An output of a fold can be required by a node on which another part of the
+            # same fold depends. In this case, the fold cannot be executed as a unit.
+            folds = [n for n in complement if n.id in graph._fold_ids and n in error.nodes]
+            if not folds:
+                raise
+            complement = [n for n in complement if n not in folds]
+            complement += [
+                graph._node_refs[node_id]
+                for node_id, node in graph._nodes.items()
+                if node.parent in folds
+            ]
 
 
 def reduce_resolution(
@@ -1170,86 +1224,89 @@ def reduce_resolution(
     modules in the reduced graph (original modules for leaves, wrapping subgraphs
     for Span/Group).
     """
-    targets: set[NodeRef] = set()
-    subgraphs: list[tuple[set[NodeRef], GraphModule]] = []
+    targets: dict[NodeRef, None] = {}
+    subgraphs: list[GraphModule] = []
     seen_targets: set[NodeRef] = set()
     spec_targets: list[torch.nn.Module] = []
+    spec_units: list[OutputNode] = []
+    region_nodes: set[NodeRef] = set()
 
     # Create "targets": the most granular collection of nodes we need to have, given the specs.
     for spec in specs:
         resolved = spec.resolve(graph)
-        if overlap := resolved.nodes & seen_targets:
+        covered = set(resolved.nodes)
+        for ref in resolved.nodes:
+            covered |= graph.leaf_nodes(ref)
+        if overlap := covered & seen_targets:
             msg = f"Overlapping nodes in subgraph specs: {overlap}"
             raise ValueError(msg)
 
-        seen_targets |= resolved.nodes
-        targets |= resolved.nodes
+        seen_targets |= covered
+        region_nodes |= resolved.nodes
         spec_targets.append(resolved.target)
-        if isinstance(resolved.target, GraphModule):
-            subgraphs.append((resolved.nodes, resolved.target))
+        if isinstance(spec.region, (Span, Group)):
+            assert isinstance(resolved.target, GraphModule)
+            subgraphs.append(resolved.target)
+            spec_units.append(resolved.target)
+        else:
+            (target_ref,) = resolved.nodes
+            targets[target_ref] = None
+            spec_units.append(target_ref)
 
     # Now create the coarse complement. whatever we dont see as targets, try and get the
     # coarsest level (try not to unfold into leaves if not needed).
-    complement = _coarse_complement(graph, targets)
-
-    for path_nodes, _ in subgraphs:
-        targets -= path_nodes
+    complement = _coarse_complement(graph, region_nodes)
 
     new_graph = GraphModule()
-    context: dict[str, _BaseRef] = {name: new_graph.add_input(name) for name in graph.input_names}
-    subgraph_idx = 0
+
+    # Mapping from references of `graph` to references of `new_graph`.
+    mapping: dict[_BaseRef, _BaseRef] = {
+        ref: new_graph.add_input(name) for name, ref in graph._inputs.items()
+    }
+    new_units: dict[OutputNode, NodeRef] = {}
 
     # Rewire the new graph's path in a dependency-based (topo) order.
-    for node in node_order(graph, [*targets, *complement, *[gm for _, gm in subgraphs]]):
+    for node in _ordered_units(graph, [*targets, *subgraphs], complement):
+        outputs: Sequence[_BaseRef]
         match node:
             case GraphModule() as subgraph:
-                args = [_resolve_subgraph_input(name, context) for name in subgraph.input_names]
+                path_nodes = [graph._node_refs[node_id] for node_id in subgraph._nodes]
+                external_inputs = _external_inputs(graph, path_nodes)
+                args = [
+                    _substitute_reference(external_inputs[name], mapping)
+                    for name in subgraph.input_names
+                ]
                 # Path-specific subgraphs have _no_ kwargs, that wiring is done by input name only.
-                ref = new_graph.add_node(f"subgraph_{subgraph_idx}", subgraph, args, kwargs={})
-                subgraph_idx += 1
+                name = f"subgraph_{subgraphs.index(subgraph)}"
+                ref = new_graph.add_node(name, subgraph, args, kwargs={})
+                outputs = subgraph._outputs
 
-                for i, out in enumerate(subgraph._outputs):
-                    if isinstance(base := out.unwrap_ref(), NodeRef):
-                        context[base.name] = ref if len(subgraph._outputs) == 1 else ref[i]
-
-            case NodeRef(id=node_id, name=node_name) if node_id in graph._fold_ids:
+            case NodeRef(id=node_id, name=node_name):
                 original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
+                args = [_substitute_reference(arg, mapping) for arg in original_node.args]
                 kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
+                    key: _substitute_reference(value, mapping)
                     for key, value in original_node.kwargs.items()
                 }
                 ref = new_graph.add_node(
                     node_name, original_node.target, args, kwargs=kwargs, op=original_node.op
                 )
-                context[node_name] = ref
-
-                fold_outputs = graph.fold_outputs(node)
-                for i, leaf in enumerate(fold_outputs):
-                    context[leaf.name] = ref if len(fold_outputs) == 1 else ref[i]
+                outputs = graph._fold_outputs.get(node_id, (node,))
 
-            case NodeRef(id=node_id, name=node_name):
-                original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
-                kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
-                    for key, value in original_node.kwargs.items()
-                }
-                node_ref = new_graph.add_node(
-                    node_name, original_node.target, args, kwargs, op=original_node.op
-                )
-                context[node_name] = node_ref
+        new_units[node] = ref
+        for i, output in enumerate(outputs):
+            mapping[output] = ref if len(outputs) == 1 else ref[i]
 
     for graph_output in graph._outputs:
-        rewritten = remap_subgraph_reference(graph_output, context, {})
+        rewritten = _substitute_reference(graph_output, mapping)
         assert isinstance(rewritten, (NodeRef, AttributeRef))
         new_graph.add_output(rewritten)
 
     # Attach delegates to their target node in the reduced graph.
-    for target, spec in zip(spec_targets, specs):
-        base_ref = new_graph.node_ref(target)
-        new_graph._nodes[base_ref.id] = dataclasses.replace(
-            new_graph._nodes[base_ref.id], delegate=spec.delegate
+    for unit, spec in zip(spec_units, specs):
+        unit_id = new_units[unit].id
+        new_graph._nodes[unit_id] = dataclasses.replace(
+            new_graph._nodes[unit_id], delegate=spec.delegate
         )
 
     # Re-anchor specs: leaf regions stay unchanged, Span/Group regions become the wrapping subgraph.
-- 
2.43.0


From a9e91d9c18dabd240488d54fdf22954cea2ddab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 061/120] fix: call traced modules with their original
 arguments and outputs

---
 src/fastforward/_orchestration/trace.py | 126 ++++++++++++++++++------
 1 file changed, 97 insertions(+), 29 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b21f813..09c363b 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -3,13 +3,14 @@
 
 from __future__ import annotations
 
+import collections
 import contextlib
 import inspect
 import re
 import warnings
 import weakref
 
-from typing import Any, Callable, Iterator, cast
+from typing import Any, Callable, Collection, Iterator, cast
 
 import torch
 import torch.nn as nn
@@ -199,20 +200,66 @@ def _is_non_leaf_graph_module(mod: nn.Module) -> bool:
     return any(node.op == "call_module" for node in graph.nodes)
 
 
-def _fold_needs_preservation(mod: nn.Module) -> bool:
-    """True if the fold's call site has multiple positional inputs that need signature recovery.
+def _strip_call_index(path: str) -> str:
+    """Remove the call index from a module path.
 
-    Without `preserve_module_call_signature`, torch.export.unflatten collapses all
-    module call kwargs into positional args. Folds with a single positional input
-    don't need this (order is unambiguous). Folds with multiple inputs (e.g. a
-    decoder layer receiving hidden_states + attention_mask + position_embeddings)
-    need preservation to recover the correct args/kwargs split.
+    `torch.export.unflatten` names the second call of `block` as `block@1`, the third
+    as `block@2`, etc. All of them refer to the same module of the original model.
     """
-    graph = getattr(mod, "graph", None)
-    if not isinstance(graph, fx.Graph):
-        return False
-    n_placeholders = sum(1 for n in graph.nodes if n.op == "placeholder")
-    return n_placeholders > 1
+    return re.sub(r"@\d+(?=\.|$)", "", path)
+
+
+_Call = tuple[nn.Module, tuple[Any, ...], dict[str, Any], Any]
+
+
+@contextlib.contextmanager
+def _record_calls(module: nn.Module) -> Iterator[list[_Call]]:
+    """Record every call of the submodules of `module` as (module, args, kwargs, output)."""
+    calls: list[_Call] = []
+
+    def _recorder(original: nn.Module) -> Callable[..., None]:
+        # torch.export may call a copy of the module, hence the first argument is ignored.
+        def _record(_: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any) -> None:
+            calls.append((original, args, kwargs, out))
+
+        return _record
+
+    handles = [
+        mod.register_forward_hook(_recorder(mod), with_kwargs=True)
+        for mod in module.modules()
+        if mod is not module
+    ]
+    try:
+        yield calls
+    finally:
+        for handle in handles:
+            handle.remove()
+
+
+def _is_tensor_to_tensor(args: tuple[Any, ...], kwargs: dict[str, Any], output: Any) -> bool:
+    """True if a call maps a single tensor to a single tensor.
+
+    Without `preserve_module_call_signature`, torch.export.unflatten reduces the arguments
+    of a module call to the distinct tensors that the module uses, in order of their first
+    use, and its outputs to the tensors that are used elsewhere. This is unambiguous for
+    calls with a single tensor. For all other calls (e.g. a decoder layer receiving
+    hidden_states + attention_mask + position_embeddings), the signature is required to
+    call the original module.
+    """
+    return (
+        len(args) == 1
+        and not kwargs
+        and isinstance(args[0], torch.Tensor)
+        and isinstance(output, torch.Tensor)
+    )
+
+
+def _is_preservable(args: tuple[Any, ...], kwargs: dict[str, Any], output: Any) -> bool:
+    """True if torch.export can represent the signature of a call."""
+    return all(
+        value is None or isinstance(value, (torch.Tensor, bool, int, float))
+        for value in pytree.tree_leaves((args, kwargs, output))
+    )
 
 
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
@@ -267,6 +314,7 @@ class _GraphBuilder:
         is_root: bool = False,
         positional_names: list[str] | None = None,
         out_spec: pytree.TreeSpec | None = None,
+        captured_only: Collection[nn.Module] = (),
     ) -> None:
         self._graph = GraphModule()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
@@ -275,9 +323,12 @@ class _GraphBuilder:
         self._is_root = is_root
         self._positional_names = positional_names or []
         self._out_spec = out_spec
+        # Modules whose calls can only be reproduced by the captured operations
+        self._captured_only = captured_only
 
     def _absolute_path(self, target: str) -> str:
-        return f"{self._path_prefix}.{target}" if self._path_prefix else target
+        path = f"{self._path_prefix}.{target}" if self._path_prefix else target
+        return _strip_call_index(path)
 
     def _has_attr_on_original(self, absolute_path: str) -> bool:
         """Check if the attribute path exists on the original module."""
@@ -324,7 +375,7 @@ class _GraphBuilder:
                     op=Op.call_function,
                 )
             case _:
-                raise TypeError("Unsupported FX argument type: {type(x)!r}")
+                raise TypeError(f"Unsupported FX argument type: {type(x)!r}")
 
     def _convert_args(self, fx_node: fx.Node) -> tuple[tuple[_BaseRef, ...], dict[str, _BaseRef]]:
         """Convert all positional and keyword FX args of a node into `_BaseRef`."""
@@ -352,12 +403,18 @@ class _GraphBuilder:
         absolute_path = self._absolute_path(target)
 
         if _is_non_leaf_graph_module(submod):
-            sub_builder = _GraphBuilder(self._original_root, absolute_path)
+            sub_builder = _GraphBuilder(
+                self._original_root, absolute_path, captured_only=self._captured_only
+            )
             sub_ff = sub_builder.build(submod)
             args, kwargs = self._convert_args(fx_node)
             original = self._original_root.get_submodule(absolute_path)
             output_refs = self._graph.add_subgraph(
-                target, sub_ff, args, kwargs, original_module=original
+                target,
+                sub_ff,
+                args,
+                kwargs,
+                original_module=None if original in self._captured_only else original,
             )
             if len(output_refs) == 1:
                 self._fx_to_ff[fx_node] = output_refs[0]
@@ -370,7 +427,7 @@ class _GraphBuilder:
                 )
         else:
             original = self._original_root.get_submodule(absolute_path)
-            if not _can_call_original(original, submod, fx_node):
+            if original in self._captured_only or not _can_call_original(original, submod, fx_node):
                 original = submod
             self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
 
@@ -378,20 +435,19 @@ class _GraphBuilder:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
         if len(raw) == 1 and isinstance(raw[0], (list, tuple)):
             raw = raw[0]
-        flat_refs = tuple(self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node))
 
         if self._is_root:
             assert self._out_spec is not None
-            assert all(isinstance(r, NodeRef) for r in flat_refs)
             unflatten_ref = self._graph.add_node(
                 "_prepare_output",
                 _prepare_output(self._out_spec),
-                args=flat_refs,
+                # Inputs and constants may be returned, too.
+                args=tuple(self._convert_arg(a, f"output_{i}") for i, a in enumerate(raw)),
                 op=Op.call_function,
             )
             self._graph.add_output(unflatten_ref)
         else:
-            for ref in flat_refs:
+            for ref in (self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node)):
                 assert isinstance(ref, NodeRef)
                 self._graph.add_output(ref)
 
@@ -509,17 +565,28 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
     ]
 
     with ff.disable_quantization(module), _placeholder_uninitialized_params(module):
-        exported_program = torch.export.export(module, args=args, kwargs=kwargs)
+        with _record_calls(module) as calls:
+            exported_program = torch.export.export(module, args=args, kwargs=kwargs, strict=False)
         unflattened = torch.export.unflatten(exported_program)
 
-        fold_fqns = tuple(
-            name
-            for name, mod in unflattened.named_modules()
-            if _is_non_leaf_graph_module(mod) and name and _fold_needs_preservation(mod)
+        ambiguous = {call[0] for call in calls if not _is_tensor_to_tensor(*call[1:])}
+        # Signatures are only preserved for modules that are known by a single name.
+        names = collections.Counter(mod for _, mod in module.named_modules(remove_duplicate=False))
+        captured_only = {
+            mod
+            for mod, *call in calls
+            if mod in ambiguous and (names[mod] > 1 or not _is_preservable(*call))
+        }
+        preserved_fqns = tuple(
+            name for name, mod in module.named_modules() if mod in ambiguous - captured_only
         )
-        if fold_fqns:
+        if preserved_fqns:
             exported_program = torch.export.export(
-                module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                module,
+                args=args,
+                kwargs=kwargs,
+                strict=False,
+                preserve_module_call_signature=preserved_fqns,
             )
             with warnings.catch_warnings():
                 warnings.filterwarnings(
@@ -538,6 +605,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         is_root=True,
         positional_names=positional_names,
         out_spec=out_spec,
+        captured_only=captured_only,
     )
 
     _graph_cache[module] = builder.build(unflattened)
-- 
2.43.0


From 5e81d8a0dd3174daa794909ee2f5b9fc01a2a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 062/120] fix: trace again for other example inputs or modules

---
 src/fastforward/_orchestration/trace.py | 36 +++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 09c363b..55e49de 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -521,7 +521,31 @@ class _GraphBuilder:
 
 # We keep track of a GraphModule cache to ensure we don't re-trace the same model twice
 # under different orchestration needs (e.g. PTQ vs inference).
-_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, GraphModule] = weakref.WeakKeyDictionary()
+_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, dict[Any, GraphModule]] = (
+    weakref.WeakKeyDictionary()
+)
+
+
+def _cache_key(module: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any]) -> Any:
+    """Identify the modules that are traced, their mode, and the example inputs.
+
+    The example tensors are represented by their metadata: their values do not affect
+    the traced graph. All other inputs are constants of the traced graph.
+    """
+
+    def _leaf_key(leaf: Any) -> Any:
+        match leaf:
+            case torch.Tensor():
+                return torch.Tensor, leaf.shape, leaf.dtype, leaf.device
+            case None | bool() | int() | float() | str() | torch.dtype() | torch.device():
+                return type(leaf), leaf
+            case _:
+                return object()  # Unknown type, never reuse the graph
+
+    # A traced graph keeps its modules alive, their ids are not reused
+    modules = tuple((name, id(mod), mod.training) for name, mod in module.named_modules())
+    leaves, spec = pytree.tree_flatten((args, kwargs))
+    return modules, str(spec), tuple(_leaf_key(leaf) for leaf in leaves)
 
 
 @ff.flags.context(ff.strict_quantization, False)
@@ -555,8 +579,10 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         msg = f"fastforward._orchestration.trace requires PyTorch >= {_MIN_TORCH_VERSION}; got {torch.__version__}."
         raise RuntimeError(msg)
 
-    if module in _graph_cache:
-        return _graph_cache[module]
+    cache = _graph_cache.setdefault(module, {})
+    key = _cache_key(module, args, kwargs)
+    if key in cache:
+        return cache[key]
 
     positional_names = [
         p.name
@@ -608,5 +634,5 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         captured_only=captured_only,
     )
 
-    _graph_cache[module] = builder.build(unflattened)
-    return _graph_cache[module]
+    cache[key] = builder.build(unflattened)
+    return cache[key]
-- 
2.43.0


From 7586dfcc7de62fea85e0a87bb1cc637f3b193c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 063/120] fix: run the instructions that follow a return

---
 src/fastforward/_orchestration/instruction_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 25d2c3e..7cb3d55 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -754,9 +754,12 @@ class InstructionEngine:
         Returns:
             Result from RETURN instruction, or None if no RETURN is executed.
         """
+        result = None
         for instruction in instructions:
-            if (result := instruction.execute(register)) is not None:
-                return result
+            # Instructions may follow RETURN, e.g., to restore the placement of modules.
+            if (value := instruction.execute(register)) is not None and result is None:
+                result = value
+        return result
 
     def run(self, program: InstructionProgram, *args: Any, **kwargs: Any) -> Any:
         """Run instructions with provided inputs.
-- 
2.43.0


From 35842fd2b01652b7e6e9633fb7ed2971b94dda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 064/120] fix: only cancel the offloading of modules that are
 on the compute device

---
 .../_orchestration/instruction_engine.py      | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 7cb3d55..0fe6bb8 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1022,27 +1022,43 @@ def _offloading_pass(
 def _cancel_module_round_trips(
     instructions: Instructions, compute_device: torch.device, storage_device: torch.device
 ) -> Instructions:
-    """Cancel adjacent MoveModule round-trips."""
-    device_pair = {compute_device, storage_device}
+    """Cancel adjacent MoveModule round-trips.
+
+    Moving a module to `storage_device` and back to `compute_device` is only a round-trip
+    if the module is on `compute_device` in the first place.
+    """
+    on_compute: set[torch.nn.Module] = set()
 
     def _is_round_trip(left: Instruction, right: Instruction) -> bool:
         return (
             isinstance(left, MoveModule)
             and isinstance(right, MoveModule)
             and left.module is right.module
-            and isinstance(left.device, torch.device)
-            and isinstance(right.device, torch.device)
-            and {left.device, right.device} == device_pair
+            and left.module in on_compute
+            and left.device == storage_device
+            and right.device == compute_device
         )
 
     result: list[Instruction] = []
     i = 0
     while i < len(instructions):
-        if i + 1 < len(instructions) and _is_round_trip(instructions[i], instructions[i + 1]):
+        instruction = instructions[i]
+        if i + 1 < len(instructions) and _is_round_trip(instruction, instructions[i + 1]):
             i += 2
-        else:
-            result.append(instructions[i])
-            i += 1
+            continue
+
+        match instruction:
+            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(
+                module, torch.nn.Module
+            ):
+                # Modules are executed on `compute_device`
+                on_compute.add(module)
+            case MoveModule(module=module):
+                on_compute.discard(module)
+            case _:
+                pass
+        result.append(instruction)
+        i += 1
 
     return tuple(result)
 
-- 
2.43.0


From 6a4cfb0ebc09f99f1ed7b99f26bbda8a9abd4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 065/120] fix: track the device of attributes and released
 values in offloading

---
 .../_orchestration/instruction_engine.py      | 67 +++++++++++--------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 0fe6bb8..daaeb16 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1074,6 +1074,9 @@ def _cancel_redundant_activation_moves(
     (via ``uses()``), the pending move for that ref is flushed: emitted only if
     the ref's tracked device differs from the move's target.
 
+    Each reference is tracked separately: an attribute of a value has its own register
+    entry, which starts on the device of the value.
+
     Device state is tracked for CallModule outputs:
     - ``nn.Module`` calls produce on ``compute_device`` (MoveModule guarantees this).
     - Non-Module callables (aten ops) inherit the device of their inputs when
@@ -1083,39 +1086,49 @@ def _cancel_redundant_activation_moves(
     pending: dict[_BaseRef, MoveActivations] = {}
     result: list[Instruction] = []
 
-    def _infer_output_device(instr: Instruction) -> None:
-        if not isinstance(instr, CallModule):
-            return
-        key = instr.target.unwrap_ref()
-        if isinstance(instr.module, torch.nn.Module):
-            ref_device[key] = compute_device
-            return
-        devs = {ref_device[a.unwrap_ref()] for a in instr.args if a.unwrap_ref() in ref_device}
-        if len(devs) == 1:
-            ref_device[key] = devs.pop()
+    def _output_device(instr: Instruction) -> torch.device | None:
+        match instr:
+            case CallModule(module=torch.nn.Module()):
+                return compute_device
+            case CallModule():
+                refs = (*instr.args, *instr.kwargs.values())
+                devs = {
+                    ref_device.get(ref) for ref in refs if not isinstance(ref.unwrap_ref(), Const)
+                }
+                return devs.pop() if len(devs) == 1 else None
+            case LoadAttribute(source=source):
+                return ref_device.get(source)
+            case _:
+                return None
 
     def _flush(ref: _BaseRef) -> None:
-        key = ref.unwrap_ref()
-        if (move := pending.pop(key, None)) is not None:
-            if ref_device.get(key) != move.device:
+        if (move := pending.pop(ref, None)) is not None:
+            if ref_device.get(ref) != move.device:
                 result.append(move)
-                ref_device[key] = move.device
-
-    def _is_redundant(move: MoveActivations) -> bool:
-        return ref_device.get(move.register_ref.unwrap_ref()) == move.device
+                ref_device[ref] = move.device
 
     for instr in instructions:
         if isinstance(instr, MoveActivations):
-            pending[instr.register_ref.unwrap_ref()] = instr
-        else:
-            for ref in instr.uses():
-                _flush(ref)
-            result.append(instr)
-            _infer_output_device(instr)
-
-    for move in pending.values():
-        if not _is_redundant(move):
-            result.append(move)
+            pending[instr.register_ref] = instr
+            continue
+
+        for ref in instr.uses():
+            _flush(ref)
+        if isinstance(instr, DeleteRegisterEntries):
+            for ref in instr.targets:
+                pending.pop(ref, None)
+
+        result.append(instr)
+
+        device = _output_device(instr)
+        for ref in instr.produces():
+            pending.pop(ref, None)
+            ref_device.pop(ref, None)
+            if device is not None:
+                ref_device[ref] = device
+
+    for ref in list(pending):
+        _flush(ref)
 
     return tuple(result)
 
-- 
2.43.0


From 3f1d0f3dc12d0a521992a47a22ee30b16ae0653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 066/120] fix: move named tuples and data classes between
 devices

---
 .../_orchestration/instruction_engine.py          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index daaeb16..df577fa 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -3,6 +3,7 @@
 
 
 import abc
+import copy
 import dataclasses
 import itertools
 
@@ -549,7 +550,7 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
     """Recursively move tensors in nested structures to `device`.
 
     Args:
-        value: A tensor, tuple, list, dict, or other value.
+        value: A tensor, tuple, list, dict, dataclass, or other value.
         device: Target device.
 
     Returns:
@@ -559,7 +560,10 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
         case torch.Tensor():
             return value.to(device=device)
         case tuple():
-            return tuple(_move_to_device(v, device) for v in value)
+            moved_items = (_move_to_device(v, device) for v in value)
+            if hasattr(value, "_fields"):  # Preserve named tuples
+                return type(value)(*moved_items)
+            return tuple(moved_items)
         case list():
             return [_move_to_device(v, device) for v in value]
         case dict() if type(value) is not dict:
@@ -572,6 +576,13 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
             return moved
         case dict():
             return {k: _move_to_device(v, device) for k, v in value.items()}
+        case _ if dataclasses.is_dataclass(value) and not isinstance(value, type):
+            moved_object = copy.copy(value)
+            for field in dataclasses.fields(value):
+                moved_value = _move_to_device(getattr(value, field.name), device)
+                # Frozen dataclasses do not support regular assignment
+                object.__setattr__(moved_object, field.name, moved_value)
+            return moved_object
     return value
 
 
-- 
2.43.0


From 2375b2bef2964a1851e6f327dd6efc6b2a791c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 067/120] fix: move constant tensors when offloading

---
 .../_orchestration/instruction_engine.py      | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index df577fa..3a82f16 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -222,7 +222,7 @@ class ActivationBundle:
 
     Constructed via `gather`, which resolves a node's `_BaseRef` args and kwargs
     against the register, broadcasts singletons against N-length streams, and
-    bundles them. `Const` refs are wrapped on the fly.
+    bundles them. `Const` refs without register entry are wrapped on the fly.
     """
 
     args: tuple[ActivationDataset, ...]
@@ -250,7 +250,8 @@ class ActivationBundle:
         """
 
         def get_dataset(ref: _BaseRef) -> ActivationDataset:
-            if isinstance(ref, Const):
+            stored = ref in register and context in register.contexts_for(ref)
+            if isinstance(ref, Const) and not stored:
                 return ActivationDataset([ref.value])
             return register.load(ref, context)
 
@@ -586,6 +587,20 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
     return value
 
 
+def _contains_tensor(value: Any) -> bool:
+    """Return whether `_move_to_device` finds a tensor in `value`."""
+    match value:
+        case torch.Tensor():
+            return True
+        case tuple() | list():
+            return any(_contains_tensor(v) for v in value)
+        case dict():
+            return any(_contains_tensor(v) for v in value.values())
+        case _ if dataclasses.is_dataclass(value) and not isinstance(value, type):
+            return any(_contains_tensor(getattr(value, f.name)) for f in dataclasses.fields(value))
+    return False
+
+
 def _move_register_entries_to_device(
     register: ActivationRegister, ref: _BaseRef, device: torch.device
 ) -> None:
@@ -982,7 +997,8 @@ def _activation_offloading_pass(
     for instruction in instructions:
         if isinstance(instruction, (CallModule, OptimizeModule)):
             for ref in instruction.uses():
-                if isinstance(ref.unwrap_ref(), Const):
+                base_ref = ref.unwrap_ref()
+                if isinstance(base_ref, Const) and not _contains_tensor(base_ref.value):
                     continue
                 new_instructions.append(MoveActivations(device=compute_device, register_ref=ref))
 
-- 
2.43.0


From 096e123c03c9c4cfdf52f74a8fd26b1e1ac565e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 068/120] fix: preserve the order of dependencies and results
 when editing export pipelines

---
 src/fastforward/export/pipeline/core.py | 43 +++++++++++++------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 33ed274..2fe1f87 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -49,6 +49,10 @@ class StageReference:
             raise KeyError(msg)
         del self._dependencies[dep]
 
+    def _replace_dependency(self, old: "StageReference", new: "StageReference") -> None:
+        """Depend on `new` instead of `old`, the order of the dependencies is preserved."""
+        self._set_dependencies([new if dep is old else dep for dep in self._dependencies])
+
     def __repr__(self) -> str:
         return f"StageReference(stage_fn={self.stage_fn}, name={self.name})"
 
@@ -236,8 +240,7 @@ class Pipeline:
         new_stage = self.register_stage(stage_fn, name, capture_stage_output)
         new_stage.depends_on(target_ref)
         for dependent in existing_dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
         return new_stage
 
     def replace_stage(
@@ -276,26 +279,24 @@ class Pipeline:
             msg = f"Stage name '{new_name}' is already registered"
             raise ValueError(msg)
 
-        was_eval = target_ref in self._evaluation_stages
         was_captured = target_ref in self._result_stages
-        capture = capture_stage_output if capture_stage_output is not None else was_captured
-
-        inherited = list(target_ref._dependencies)
-        dependents = self._dependents_of(target_ref)
-
-        del self._stages[target_ref]
-        self._result_stages.pop(target_ref, None)
-        self._evaluation_stages.pop(target_ref, None)
-
-        if was_eval:
-            new_stage = self.register_eval_stage(stage_fn, new_name, capture)
-        else:
-            new_stage = self.register_stage(stage_fn, new_name, capture)
-        new_stage.depends_on(*inherited)
-
-        for dependent in dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+        new_stage = StageReference(stage_fn, new_name)
+        new_stage.depends_on(*target_ref._dependencies)
+        for dependent in self._dependents_of(target_ref):
+            dependent._replace_dependency(target_ref, new_stage)
+
+        def _in_place(stages: dict[StageReference, str]) -> dict[StageReference, str]:
+            in_order = (new_stage if stage is target_ref else stage for stage in stages)
+            return {stage: stage.name for stage in in_order}
+
+        self._stages = _in_place(self._stages)
+        self._result_stages = _in_place(self._result_stages)
+        self._evaluation_stages = _in_place(self._evaluation_stages)
+        if capture_stage_output is not None and capture_stage_output is not was_captured:
+            if capture_stage_output:
+                self._result_stages[new_stage] = new_name
+            else:
+                del self._result_stages[new_stage]
 
         return new_stage
 
-- 
2.43.0


From 7d666109556f8cb7ebbd61fed613e4d2297626eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 069/120] fix: export quantizers without an offset

---
 src/fastforward/export/stages/annotations.py | 27 +++++++++++++++++---
 src/fastforward/export/stages/passes.py      | 18 ++++---------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/fastforward/export/stages/annotations.py b/src/fastforward/export/stages/annotations.py
index 664f409..903b460 100644
--- a/src/fastforward/export/stages/annotations.py
+++ b/src/fastforward/export/stages/annotations.py
@@ -21,6 +21,20 @@ class FFQuantizerSpec:
     data_shape: tuple[int, ...] | None = None
 
 
+def _quantization_arguments(node: torch.fx.Node) -> dict[str, Any]:
+    """Get the arguments of a quantize or dequantize `node` by name.
+
+    Trailing arguments that equal their default may be absent from the node.
+    """
+    assert isinstance(node.target, torch._ops.OpOverload)
+    arguments: dict[str, Any] = {}
+    for idx, argument in enumerate(node.target._schema.arguments):
+        default = argument.default_value if argument.has_default_value() else None
+        value = node.args[idx] if idx < len(node.args) else default
+        arguments[argument.name] = node.kwargs.get(argument.name, value)
+    return arguments
+
+
 def _ff_quantizer_spec(
     node: torch.fx.Node, quant_params: dict[str, torch.Tensor]
 ) -> FFQuantizerSpec:
@@ -29,12 +43,17 @@ def _ff_quantizer_spec(
         msg = f"Unsupported target: {node.target}"
         raise NotImplementedError(msg)
 
-    data, scale, tile_size, num_bits, _output_dtype, offset = node.args
+    arguments = _quantization_arguments(node)
+    data, scale, offset = node.args[0], arguments["scale"], arguments["offset"]
+    tile_size, num_bits = arguments["tile_size"], arguments["num_bits"]
 
     assert isinstance(scale, torch.fx.Node) and isinstance(scale.target, str)
-    assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
     scale_value = quant_params[scale.target]
-    offset_value = quant_params[offset.target]
+    if offset is None:
+        offset_value = torch.zeros_like(scale_value)
+    else:
+        assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
+        offset_value = quant_params[offset.target]
     symmetric = _is_symmetric_offset(offset_value)
 
     if not isinstance(num_bits, (int, float)):
@@ -46,7 +65,7 @@ def _ff_quantizer_spec(
         raise ValueError(msg)
 
     if not symmetric:
-        offset_value = 2 ** (num_bits - 1) - quant_params[offset.target]
+        offset_value = 2 ** (num_bits - 1) - offset_value
 
     tile_size_tuple: tuple[int, ...] | None = None
     if isinstance(tile_size, torch.Size):
diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index d5f2416..ba02e9d 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -5,13 +5,13 @@ import itertools
 import logging
 
 from collections import deque
-from typing import Any, Iterator
+from typing import Iterator
 
 import torch
 
 from torch.fx.passes.infra.pass_base import PassResult
 
-from fastforward.export.stages.annotations import _ff_quantizer_spec
+from fastforward.export.stages.annotations import _ff_quantizer_spec, _quantization_arguments
 
 FF_QUANTIZATION_SPEC = "__FF_QUANTIZATION_SPEC"
 QUANTIZE_OPERATIONS = (torch.ops.fastforward.quantize_by_tile.default,)
@@ -121,18 +121,10 @@ def _ff_quantization_parameters(
     """Helper to obtain all quantization parameter tensors from module."""
     all_params = dict(itertools.chain(module.named_parameters(), module.named_buffers()))
     quant_params: dict[str, torch.Tensor] = {}
-    scale: Any = None
-    offset: Any = None
     for node in _ff_quantization_nodes(module.graph):
-        match node.target:
-            case torch.ops.fastforward.quantize_by_tile.default:
-                _data, scale, _tile_size, _num_bits, _output_dtype, offset = node.args
-            case torch.ops.fastforward.dequantize_by_tile.default:
-                _data, scale, _tile_size, offset, _output_dtype = node.args
-            case _:
-                assert False, "unreachable"
-
-        for param_node in (scale, offset):
+        arguments = _quantization_arguments(node)
+
+        for param_node in (arguments["scale"], arguments["offset"]):
             if param_node is None:
                 continue
             assert isinstance(param_node, torch.fx.Node)
-- 
2.43.0


From 1638bccaa7fb6d4a7dfc485cce448b15da20fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 070/120] fix: only export encodings as symmetric if all
 offsets are zero

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 513de00..0296699 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,7 +48,7 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
-    is_symmetric = (torch.all(offset).item()) == 0
+    is_symmetric = not torch.any(offset).item()
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
     qnn_offset = offset - 2 ** (bitwidth - 1)
-- 
2.43.0


From b94c82ea5bd78daa4ea6b53feb99724a04a9bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 071/120] fix: export scalar and shared quantization parameters

---
 src/fastforward/export/_export_schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 0296699..4aebf14 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -42,10 +42,10 @@ def _preprocess_quantization_params(
     data_shape = torch.Size(encoding_value["data_shape"])
     tile_size = torch.Size(encoding_value["tile_size"])
 
-    scale = ensure_tensor(scale)
+    scale = ensure_tensor(scale).reshape(-1)
     if offset is None:
         offset = _infer_offset(offset, scale)
-    offset = ensure_tensor(offset)
+    offset = ensure_tensor(offset, device=scale.device).reshape(-1).expand_as(scale)
     offset = torch.round(offset)
 
     is_symmetric = not torch.any(offset).item()
-- 
2.43.0


From 50a586d862258c56745164fe8a4c39c65392893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 072/120] fix: export per-block zero points as QNN offsets in
 schema version 2

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 4aebf14..9aab660 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -428,7 +428,7 @@ class V2SchemaHandler:
                     qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
                 reconstructed_offset = (
-                    qparams.offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
+                    qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
 
                 entry["y_scale"] = reconstructed_scale
-- 
2.43.0


From acf094de1d63d0d38fa504afa007115b61a06405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 073/120] fix: refuse fractional bitwidths in the QDQ export

---
 src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index 1c70840..f78dab9 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -128,10 +128,9 @@ def _make_ff_quantize_by_tile_onnx(op: Any) -> Callable[..., Any]:
         offset: Any | None = None,
     ) -> Any:
         del output_dtype
-        bitwidth = int(num_bits)
         axis = _ff_axis_from_tile_size(tile_size, data=input)
         zero_point = _ff_zero_point_from_offset(scale, offset, op)
-        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(bitwidth))
+        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(num_bits))
         if axis is None:
             return op.QuantizeLinear(input, scale, zero_point)
         return op.QuantizeLinear(input, scale, zero_point, axis=axis)
-- 
2.43.0


From 984c19691a6b06c2dbbc22579d7cab5eb024480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 074/120] fix: refuse tilings that the QDQ export cannot
 represent

---
 .../stages/onnx/onnx_qdq_export_stages.py     | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index f78dab9..e791845 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -42,6 +42,31 @@ def _ff_zero_point_from_offset(scale: Any, offset: Any | None, op: Any) -> Any:
     return op.Neg(op.Round(offset))
 
 
+def _ff_assert_qdq_tiling(
+    tile_size: list[int] | tuple[int, ...] | torch.Size, data: Any | None
+) -> None:
+    """Raise if ``tile_size`` is not a per-tensor or single-axis per-channel tiling of ``data``."""
+    shape = data.shape if data is not None else None
+    if shape is None:
+        return
+
+    split_sizes: list[int] = []
+    for tile_dim, data_dim in zip(tile_size, shape):
+        try:
+            data_dim = int(data_dim)
+        except (TypeError, ValueError):
+            continue  # Dynamic or symbolic dim
+        if int(tile_dim) != data_dim:
+            split_sizes.append(int(tile_dim))
+
+    if len(split_sizes) > 1 or any(size != 1 for size in split_sizes):
+        msg = (
+            "QDQ ONNX lowering supports only per-tensor and single-axis per-channel "
+            f"quantization, got tile_size={tuple(tile_size)} for data of shape {tuple(shape)}"
+        )
+        raise ExportError(msg)
+
+
 def _ff_axis_from_tile_size(
     tile_size: list[int] | tuple[int, ...] | torch.Size,
     data: Any | None = None,
@@ -56,7 +81,11 @@ def _ff_axis_from_tile_size(
     emits ``tile_size = [1, I, 1, 1]`` — three candidate ``1``-axes, but axes
     2 and 3 are coincidental (the data dim is also 1 there). The disambiguator
     prefers the candidate whose data dim is genuinely non-1.
+
+    ``QuantizeLinear`` only represents per-tensor and single-axis per-channel
+    tilings. An ``ExportError`` is raised for any other tiling.
     """
+    _ff_assert_qdq_tiling(tile_size, data)
     axes = [idx for idx, dim in enumerate(tile_size) if int(dim) == 1]
     if len(axes) == 0:
         return None
-- 
2.43.0


From a3f5e1f8d9e9c905a109f38c5cc5cf3273a72030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 075/120] fix: refuse zero points that the QDQ export cannot
 represent

---
 .../stages/onnx/onnx_qdq_export_stages.py     | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index e791845..ed3c053 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
 import functools
+import itertools
 
 from typing import Any, Callable, TypeAlias
 
@@ -10,7 +11,10 @@ import onnxscript
 import torch
 
 from fastforward.exceptions import ExportError
+from fastforward.export.stages.annotations import _quantization_arguments
 from fastforward.export.stages.onnx.onnx_export_stages import stage_fx_to_onnx_program
+from fastforward.export.stages.passes import QUANTIZE_OPERATIONS, _ff_quantization_nodes
+from fastforward.quantization.affine import integer_minimum
 
 _SampleInputsT: TypeAlias = list[tuple[tuple[Any, ...], dict[str, Any]]]
 
@@ -263,6 +267,27 @@ def _with_ff_qdq_lowerings(context: dict[str, Any]) -> dict[str, Any]:
     return {**context, "onnx_export_options": options}
 
 
+def _assert_representable_zero_points(module: torch.fx.GraphModule) -> None:
+    """Raise if an offset in `module` does not fit the integer type of its quantized data."""
+    parameters = dict(itertools.chain(module.named_parameters(), module.named_buffers()))
+    for node in _ff_quantization_nodes(module.graph):
+        if node.target not in QUANTIZE_OPERATIONS:
+            continue
+        arguments = _quantization_arguments(node)
+        offset = parameters.get(str(getattr(arguments["offset"], "target", None)))
+        if offset is None:
+            continue
+        num_bits = arguments["num_bits"]
+        zero_point = -torch.round(offset.detach())
+        int_min = integer_minimum(num_bits)
+        if bool(((zero_point < int_min) | (zero_point > -int_min - 1)).any()):
+            msg = (
+                "QDQ ONNX lowering requires zero points that are representable by "
+                f"{num_bits} bits, but the zero point of '{node.name}' is {zero_point.tolist()}"
+            )
+            raise ExportError(msg)
+
+
 def stage_fx_to_onnx_program_qdq(
     modules: tuple[torch.fx.GraphModule, ...],
     sample_inputs: _SampleInputsT,
@@ -275,4 +300,10 @@ def stage_fx_to_onnx_program_qdq(
     to ``stage_fx_to_onnx_program``. The input context and any user-owned
     nested dicts are left unmodified.
     """
-    return stage_fx_to_onnx_program(modules, sample_inputs, _with_ff_qdq_lowerings(context))
+    qdq_context = _with_ff_qdq_lowerings(context)
+    options = qdq_context["onnx_export_options"]
+    q_lowering, _ = _resolve_qdq_lowerings(int(options["opset_version"]))
+    quantize_op = torch.ops.fastforward.quantize_by_tile.default
+    if options["custom_translation_table"][quantize_op] is q_lowering:
+        _assert_representable_zero_points(modules[0])
+    return stage_fx_to_onnx_program(modules, sample_inputs, qdq_context)
-- 
2.43.0


From 55bce7c1cbb8dadb5d20ab87a6016442fdbe0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 076/120] fix: detach the recorders if the model fails during
 module export

---
 src/fastforward/export/module_export.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 18ed40c..6f9cf5b 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -135,16 +135,12 @@ def export_modules(
                 module_output_path / f"{rec.module_name}_nonquantized_input_output.pickle"
             )
 
-    module_io_recorders: list[ModuleIORecorder] = []
-    for module_name, module in modules.items():
-        module_io_recorder = ModuleIORecorder(module, module_name)
-        module_io_recorders.append(module_io_recorder)
-        module_io_recorder.attach()
-
-    model(*args, **kwargs)
-
-    for module_io_recorder in module_io_recorders:
-        module_io_recorder.detach()
+    with ExitStack() as stack:
+        module_io_recorders = [
+            stack.enter_context(ModuleIORecorder(module, module_name))
+            for module_name, module in modules.items()
+        ]
+        model(*args, **kwargs)
 
     paths: dict[str, pathlib.Path] = {}
 
-- 
2.43.0


From 298ec4a9a159cfa7e882ced6bb60349f49b5ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 077/120] fix: match quantization settings with the tensors of
 nested arguments and outputs

---
 src/fastforward/export/module_export.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 6f9cf5b..8de7c63 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -16,6 +16,7 @@ from contextlib import ExitStack
 from typing import Any, Callable, TypeAlias
 
 import onnxruntime  # type: ignore[import-untyped]
+import optree
 import torch
 
 from fastforward.export import export
@@ -173,8 +174,12 @@ def export_modules(
             registry=registry,
         )
 
-        module_input_quantizer_settings = module_io_recorder.input_quantizer_settings
-        module_output_quantizer_settings = module_io_recorder.output_quantizer_settings
+        module_input_quantizer_settings = _tensor_settings(
+            module_io_recorder.input, module_io_recorder.input_quantizer_settings
+        )
+        module_output_quantizer_settings = _tensor_settings(
+            module_io_recorder.output, module_io_recorder.output_quantizer_settings
+        )
         module_kwargs_quantizer_settings = module_io_recorder.kwargs_quantizer_settings
         quantizer_settings = {
             "input": module_input_quantizer_settings,
@@ -197,6 +202,21 @@ def export_modules(
     return paths
 
 
+def _tensor_settings(values: tuple[Any, ...], settings: tuple[Any, ...]) -> tuple[Any, ...]:
+    """Flatten `settings` to the settings of the tensors in `values`.
+
+    Only tensors are inputs or outputs of an exported graph, in the order in which
+    they appear in the (nested) arguments or outputs of the module.
+    """
+    leaves, spec = optree.tree_flatten(values)  # type: ignore[arg-type]
+    leaf_settings = spec.flatten_up_to(settings)  # type: ignore[arg-type]
+    return tuple(
+        setting
+        for value, setting in zip(leaves, leaf_settings)
+        if isinstance(value, torch.Tensor)
+    )
+
+
 def maybe_extend_encodings_file(
     module_name: str,
     path: pathlib.Path,
-- 
2.43.0


From 0c7de5dd892c892b321aa957a85500a397294341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 078/120] fix: keep exported encodings when a schema handler is
 reused

---
 src/fastforward/export/_export_schemas.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 9aab660..26be81b 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -195,8 +195,8 @@ class LegacySchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": dict(self._param_encodings),
+            "activation_encodings": dict(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -330,8 +330,8 @@ class V1SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": list(self._param_encodings),
+            "activation_encodings": list(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -452,7 +452,7 @@ class V2SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "encodings": self._encodings,
+            "encodings": list(self._encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
-- 
2.43.0


From c0c4982222804ae2a2967a1024ddb8f08fc14edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 079/120] fix: export bfloat16 per-block parameters in schema
 version 2

---
 src/fastforward/export/_export_schemas.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 26be81b..f07664c 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -424,12 +424,8 @@ class V2SchemaHandler:
                 # be reshaped to the expected structure.
                 parameter_shape = _compute_v2_block_parameter_shape(qparams.data_shape, granularity)
 
-                reconstructed_scale = (
-                    qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()
-                )
-                reconstructed_offset = (
-                    qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
-                )
+                reconstructed_scale = qparams.scale.reshape(parameter_shape).tolist()
+                reconstructed_offset = qparams.qnn_offset.reshape(parameter_shape).tolist()
 
                 entry["y_scale"] = reconstructed_scale
 
-- 
2.43.0


From 871e605ac905db3a546feed05afdd2f38932177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 080/120] fix: permute the rows of Q/K projections that are not
 quantized in the GGUF export

---
 src/fastforward/export/stages/gguf/_arch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_arch.py b/src/fastforward/export/stages/gguf/_arch.py
index 089261e..87926cc 100644
--- a/src/fastforward/export/stages/gguf/_arch.py
+++ b/src/fastforward/export/stages/gguf/_arch.py
@@ -69,7 +69,11 @@ def _rope_permute_row_index(n_rows: int, n_head: int) -> torch.Tensor:
 def _apply_row_permute(
     tensor: ExtractedTensor, row_index: torch.Tensor, block_size: int
 ) -> ExtractedTensor:
-    """Reorder a quantized tensor's rows, keeping code/scale pairing intact."""
+    """Reorder a tensor's rows, for quantized tensors with code/scale pairing intact."""
+    if tensor.kind != "quantized":
+        assert tensor.float_data is not None
+        return replace(tensor, float_data=tensor.float_data[row_index])
+
     assert tensor.int_codes is not None and tensor.scales is not None
     assert tensor.cols is not None
     if tensor.cols % block_size != 0:
@@ -93,15 +97,12 @@ def llama_rope_permute(
     """RoPE de-interleave transform for llama.cpp's Llama loader.
 
     Permutes rows of Q projections by ``num_attention_heads`` and K projections
-    by ``num_key_value_heads``. Non-matching tensors and float tensors are
-    returned unchanged.
+    by ``num_key_value_heads``, whether they are quantized or not. Non-matching
+    tensors are returned unchanged.
 
     This is a :data:`~fastforward.export.stages.gguf.adapter.TensorTransformT`
     and can be used in an adapter's ``transforms`` list.
     """
-    if tensor.kind != "quantized":
-        return tensor
-
     if _Q_PROJ_RE.match(tensor.hf_name):
         row_index = _rope_permute_row_index(tensor.rows, config.num_attention_heads)
     elif _K_PROJ_RE.match(tensor.hf_name):
-- 
2.43.0


From 00f68753b57a71c517b313fe03e00474cb94e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 081/120] fix: refuse tensors that are mapped to the same name
 in the GGUF export

---
 .../export/stages/gguf/gguf_export_stages.py       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/gguf/gguf_export_stages.py b/src/fastforward/export/stages/gguf/gguf_export_stages.py
index 504fa29..ef21bda 100644
--- a/src/fastforward/export/stages/gguf/gguf_export_stages.py
+++ b/src/fastforward/export/stages/gguf/gguf_export_stages.py
@@ -110,16 +110,28 @@ def stage_map_tensor_names(
     sample_inputs: _SampleInputsT,
     context: dict[str, Any],
 ) -> list[ExtractedTensor]:
-    """Assign each tensor its GGUF name via the architecture adapter's name map."""
+    """Assign each tensor its GGUF name via the architecture adapter's name map.
+
+    Raises:
+        ExportError: If two tensors are mapped to the same GGUF name.
+    """
     del sample_inputs
     (tensors,) = modules
     adapter = _require_adapter(context)
 
     named: list[ExtractedTensor] = []
+    hf_names: dict[str, str] = {}
     for tensor in tensors:
         gguf_name = adapter.name_map(tensor.hf_name)
         if gguf_name is None:
             continue
+        if gguf_name in hf_names:
+            msg = (
+                f"Parameters '{hf_names[gguf_name]}' and '{tensor.hf_name}' are both mapped "
+                f"to the GGUF tensor '{gguf_name}'"
+            )
+            raise ExportError(msg)
+        hf_names[gguf_name] = tensor.hf_name
         named.append(replace(tensor, gguf_name=gguf_name))
     return named
 
-- 
2.43.0


From 157658a3f419eba1ea66b4f19026409a4032bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 082/120] fix: refuse scales that do not fit in half precision
 in the GGUF export

---
 src/fastforward/export/stages/gguf/_packing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_packing.py b/src/fastforward/export/stages/gguf/_packing.py
index 42ff28d..a1df2b4 100644
--- a/src/fastforward/export/stages/gguf/_packing.py
+++ b/src/fastforward/export/stages/gguf/_packing.py
@@ -17,9 +17,19 @@ from __future__ import annotations
 
 import torch
 
+from fastforward.exceptions import ExportError
 from fastforward.export.stages.gguf.adapter import GgufQuantFormat
 
 
+def _half_precision_bytes(scales: torch.Tensor) -> torch.Tensor:
+    """Return the bytes of `scales` in half precision, in which GGUF blocks store them."""
+    half_scales = scales.to(torch.float16)
+    if not half_scales.isfinite().all():
+        msg = "Cannot pack scales that are not finite in half precision"
+        raise ExportError(msg)
+    return half_scales.contiguous().view(torch.uint8)
+
+
 def pack_q4_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Tensor:
     """Pack FastForward quantized data into Q4_0 GGUF blocks.
 
@@ -43,7 +53,7 @@ def pack_q4_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Ten
     """
     n_blocks = int_codes.shape[0]
 
-    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)
+    d_bytes = _half_precision_bytes(scales).reshape(n_blocks, 2)
 
     gguf_qs = (int_codes.to(torch.int16) + 8).clamp(0, 15).to(torch.uint8)
     block_size = int_codes.shape[1]
@@ -72,7 +82,7 @@ def pack_q8_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Ten
     """
     n_blocks = int_codes.shape[0]
 
-    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)
+    d_bytes = _half_precision_bytes(scales).reshape(n_blocks, 2)
 
     gguf_qs = int_codes.clamp(-127, 127).to(torch.int8).view(torch.uint8)
 
-- 
2.43.0


From c0fc72372930acb94a8e85a670e1984bb880b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 083/120] fix: export the weights of all modules that share a
 quantizer to GGUF

---
 src/fastforward/export/stages/gguf/_extract.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 22da710..cdfb705 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -18,6 +18,7 @@ quantize a parameter, it arrives as float.
 import logging
 
 from dataclasses import dataclass
+from typing import cast
 
 import torch
 
@@ -58,18 +59,25 @@ def _build_quantizer_map(model: torch.nn.Module) -> dict[str, LinearQuantizer]:
     weight parameter's full name (e.g. ``"model.layers.0.self_attn.q_proj.weight"``)
     mapped to the corresponding initialized ``LinearQuantizer``.
     """
-    quantizer_map: dict[str, LinearQuantizer] = {}
+    quantizers: set[torch.nn.Module] = set()
     for result in ff.find_quantizers(model, "**/[quantizer:parameter/weight]"):
         quantizer = result.module
         if not isinstance(quantizer, LinearQuantizer):
             continue
         if quantizer.has_uninitialized_params:
             continue
+        quantizers.add(quantizer)
+
+    quantizer_map: dict[str, LinearQuantizer] = {}
+    # A quantizer may be shared between modules.
+    for full_name, module in model.named_modules(remove_duplicate=False):
+        if module not in quantizers:
+            continue
         # The quantizer lives at e.g. "layers.0.q_proj.weight_quantizer".
         # The corresponding parameter is at "layers.0.q_proj.weight".
-        parent_path = result.full_name.rsplit(".", 1)[0]
-        param_name = f"{parent_path}.weight"
-        quantizer_map[param_name] = quantizer
+        parent_path = full_name.rpartition(".")[0]
+        param_name = f"{parent_path}.weight" if parent_path else "weight"
+        quantizer_map[param_name] = cast(LinearQuantizer, module)
     return quantizer_map
 
 
-- 
2.43.0


From 4948088c88d45c524bd0cac0c7c976575d6779b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 084/120] fix: quantize weights in their own precision in the
 GGUF export

---
 src/fastforward/export/stages/gguf/_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index cdfb705..4bfe794 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -187,7 +187,7 @@ def extract_module_tensors(
         quantizer = quantizer_map.get(hf_name)
         if quantizer is not None:
             _validate_quantizer(quantizer, quant_format, hf_name)
-            weight = param.data.float()
+            weight = param.data
             quantized = quantizer(weight)
             int_codes = quantized.int_repr().detach().cpu()
             scales = quantizer.scale.detach().cpu().float()
-- 
2.43.0


From 0261a235b5451a4452db1e2461153603c16fb53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 085/120] fix: refuse one-sided quantizers in the GGUF export

---
 src/fastforward/export/stages/gguf/_extract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 4bfe794..26569d5 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -98,6 +98,13 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    if quant_format.symmetric and quantizer.offset is not None and quantizer.offset.any():
+        msg = (
+            f"Parameter '{hf_name}': quantizer has a (one-sided) offset but GGUF format "
+            f"'{quant_format.name}' cannot represent offsets"
+        )
+        raise ExportError(msg)
+
     if not quant_format.symmetric and quantizer.symmetric:
         msg = (
             f"Parameter '{hf_name}': quantizer is symmetric but GGUF format "
-- 
2.43.0


From c3c90e2ec72f80159e73f7769ec1ba71156f092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 086/120] fix: construct serializable objects from arguments
 that cannot be copied

---
 src/fastforward/serialization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index a8756b7..6e40364 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import contextlib
 import copy
 import functools
 
@@ -43,7 +44,10 @@ def _wrap(func: Callable[_P, _R]) -> Callable[_P, _R]:
     @functools.wraps(func)
     def wrapper(*args: _P.args, **kwargs: _P.kwargs) -> _R:
         # Store arguments (excluding self/cls)
-        fn_args = copy.deepcopy(tuple((args[1:], kwargs)))
+        fn_args = (args[1:], kwargs)
+        with contextlib.suppress(Exception):
+            # Arguments that cannot be copied are stored as they are
+            fn_args = copy.deepcopy(fn_args)
         fn_name = func.__name__.replace("__", "")
         result = func(*args, **kwargs)
         # `__new__` receives the class; its arguments belong to the new instance.
-- 
2.43.0


From de7ad246de02048d55cf3b8f9e1992d0581f4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 087/120] fix: support serializable classes that restrict
 attribute assignment

---
 src/fastforward/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 6e40364..6a48e61 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -52,7 +52,8 @@ def _wrap(func: Callable[_P, _R]) -> Callable[_P, _R]:
         result = func(*args, **kwargs)
         # `__new__` receives the class; its arguments belong to the new instance.
         obj = result if func.__name__ == "__new__" else args[0]
-        setattr(obj, f"__{fn_name}args_ex__", fn_args)
+        # Do not depend on custom implementations of `__setattr__`, e.g., in frozen dataclasses
+        object.__setattr__(obj, f"__{fn_name}args_ex__", fn_args)
         return result
 
     return wrapper
-- 
2.43.0


From f39216d7f86d965fe6312d4bba6c6772f550965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 088/120] fix: pass the subclass to __init_subclass__ of
 serializable classes

---
 src/fastforward/serialization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 6a48e61..2269f34 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -209,9 +209,8 @@ def yamlable(
     ) -> Callable[Concatenate[type[_DerivedT], _P], None]:
         def wrapper(subcls: type[_DerivedT], /, *args: _P.args, **kwargs: _P.kwargs) -> None:
             if is_custom_impl:
-                # since func is a classmethod, the first argument is passed automatically,
-                # subcls should not be passed to avoid an extra positional argument.
-                func(*args, **kwargs)  # type: ignore[arg-type]
+                # func is bound to cls, but has to be called for subcls.
+                getattr(func, "__func__", func)(subcls, *args, **kwargs)
             else:
                 super(cls, subcls).__init_subclass__(*args, **kwargs)  # type: ignore[misc]
             _wrap_to_save_method_args(subcls, "__new__", "__init__")
-- 
2.43.0


From d2ac6bddff60f8a57e7016830ef5c20107315b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 089/120] fix: store the arguments of constructors that
 serializable classes inherit from mixins

---
 src/fastforward/serialization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 2269f34..de46637 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -4,6 +4,7 @@
 import contextlib
 import copy
 import functools
+import types
 
 from typing import Any, Callable, Concatenate, ParamSpec, TypeVar, cast
 
@@ -56,6 +57,7 @@ def _wrap(func: Callable[_P, _R]) -> Callable[_P, _R]:
         object.__setattr__(obj, f"__{fn_name}args_ex__", fn_args)
         return result
 
+    setattr(wrapper, "__saves_args__", True)
     return wrapper
 
 
@@ -67,8 +69,11 @@ def _wrap_to_save_method_args(cls: type[_T], *methods: str) -> None:
         *methods: Variable number of method names to wrap (e.g., '__init__', '__new__').
     """
     for method in methods:
-        if _has_custom_method(cls, method):
-            setattr(cls, method, _wrap(getattr(cls, method)))
+        func = getattr(cls, method)
+        # A method may also be inherited from a class that is not serializable, e.g., a mixin.
+        inherited = isinstance(func, types.FunctionType) and not hasattr(func, "__saves_args__")
+        if _has_custom_method(cls, method) or inherited:
+            setattr(cls, method, _wrap(func))
 
 
 def _ff_obj_yaml_representer(dumper: yaml.Dumper, data: Any) -> yaml.MappingNode:
-- 
2.43.0


From 3e68aed266731561da7384de3f17ede4d0f2c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 090/120] fix: call __init__ of deserialized objects for which
 only arguments of __new__ are stored

---
 src/fastforward/serialization.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index de46637..1f656bd 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -140,16 +140,13 @@ def _ff_obj_yaml_constructor(
     """
     values = loader.construct_mapping(cast(yaml.MappingNode, node), deep=True)
     class_name = values.pop("name")
-    newargs, newkwargs = values.pop("newargs", ((), {}))
-    initargs = values.pop("initargs", None)
+    newargs = values.pop("newargs", ((), {}))
+    args, kwargs = values.pop("initargs", newargs)
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
-    if initargs is not None:
-        # Arguments are recorded for custom and inherited constructors alike
-        obj = cls(*initargs[0], **initargs[1])
-    else:
-        obj = cls.__new__(cls, *newargs, **newkwargs)
+    # `__new__` and `__init__` receive the same arguments
+    obj = cls(*args, **kwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
     if "state" in values:
-- 
2.43.0


From 27a99eb7a162bc062439248842b3e2d0d3fdde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 091/120] fix: do not confuse serialization tags that are
 prefixes of each other

---
 src/fastforward/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 1f656bd..be3efe4 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -225,6 +225,8 @@ def yamlable(
         wrap_init_subclass(cls.__init_subclass__, _has_custom_method(cls, "__init_subclass__")),  # type: ignore[arg-type]
     )
 
+    # Tags may be prefixes of each other, `tag` itself always refers to `yaml_constructor`.
+    yaml.add_constructor(tag, lambda loader, node: yaml_constructor(loader, "", node))
     yaml.add_multi_constructor(tag, yaml_constructor)
     yaml.add_multi_representer(cls, yaml_representer)
 
-- 
2.43.0


From 6bf1952b7cf57f3eadede22de0f10070a335908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 092/120] fix: compare and hash unions of symbolic types as
 sets

---
 src/fastforward/_quantops/symtypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_quantops/symtypes.py b/src/fastforward/_quantops/symtypes.py
index 687c8b5..19f185e 100644
--- a/src/fastforward/_quantops/symtypes.py
+++ b/src/fastforward/_quantops/symtypes.py
@@ -130,10 +130,11 @@ class _GenericUnionType(GenericType):
             return NotImplemented
         if self.name != other.name:
             return False
-        for param in other.parameters():
-            if param not in self:
-                return False
-        return True
+        return frozenset(self.parameters()) == frozenset(other.parameters())
+
+    def __hash__(self) -> int:
+        # Unions are equal regardless of the order of their parameters.
+        return hash((self.name, frozenset(self.parameters())))
 
 
 @dataclasses.dataclass(frozen=True, slots=True)
-- 
2.43.0


From 0006d4b3b9cac7566a10fd28d4259a7cbfc42c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 093/120] fix: print equal unions of symbolic types alike

---
 src/fastforward/_quantops/symtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/_quantops/symtypes.py b/src/fastforward/_quantops/symtypes.py
index 19f185e..111d9b2 100644
--- a/src/fastforward/_quantops/symtypes.py
+++ b/src/fastforward/_quantops/symtypes.py
@@ -89,7 +89,7 @@ class _GenericUnionType(GenericType):
         return list(self.parameters())
 
     def __repr__(self) -> str:
-        params = list(sorted(self.parameters(), key=lambda param: param.name))
+        params = list(sorted(self.parameters(), key=repr))
         if len(params) == 2:
             if params[0] == NoneType:
                 return f"Optional[{params[1]}]"
-- 
2.43.0


From e518ef87984d5b3d5541f7c881816b3067b0f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 094/120] fix: replace symbolic types that are nested in the
 members of a union

---
 src/fastforward/_quantops/symtypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_quantops/symtypes.py b/src/fastforward/_quantops/symtypes.py
index 111d9b2..c63e306 100644
--- a/src/fastforward/_quantops/symtypes.py
+++ b/src/fastforward/_quantops/symtypes.py
@@ -117,10 +117,12 @@ class _GenericUnionType(GenericType):
 
     def replace(self, old_type: Type, new_type: Type) -> Type:
         if old_type not in self:
-            return self
-        new_type = (
-            Union[tuple(param for param in self._parameters if param not in old_type)] | new_type
+            # Types nested in the members of the union
+            return Union[tuple(param.replace(old_type, new_type) for param in self._parameters)]
+        params = tuple(
+            param.replace(old_type, new_type) for param in self._parameters if param not in old_type
         )
+        new_type = Union[params] | new_type
         if len(new_type) == 1:
             return new_type.parameters()[0]
         return new_type
-- 
2.43.0


From 90a3a560eba409b88bf600342fdbed61fc8d7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 095/120] fix: keep the order of positional-only parameters of
 operator specs

---
 src/fastforward/_quantops/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/_quantops/operator.py b/src/fastforward/_quantops/operator.py
index 8d0aaeb..7e55fc9 100644
--- a/src/fastforward/_quantops/operator.py
+++ b/src/fastforward/_quantops/operator.py
@@ -94,7 +94,7 @@ class Operator:
             logger.warning(msg, (funcdef.name.value))
 
         for param in itertools.chain(
-            funcdef.params.params, funcdef.params.kwonly_params, funcdef.params.posonly_params
+            funcdef.params.posonly_params, funcdef.params.params, funcdef.params.kwonly_params
         ):
             name = param.name.value
             if param.annotation is None:
-- 
2.43.0


From c8985add53068c191f651654a0fa34c27a238aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 096/120] fix: refuse operator specs with variadic or duplicate
 parameters

---
 src/fastforward/_quantops/operator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastforward/_quantops/operator.py b/src/fastforward/_quantops/operator.py
index 7e55fc9..a1edc3d 100644
--- a/src/fastforward/_quantops/operator.py
+++ b/src/fastforward/_quantops/operator.py
@@ -86,6 +86,10 @@ class Operator:
         )
         params: list[Parameter] = []
 
+        if isinstance(funcdef.params.star_arg, libcst.Param) or funcdef.params.star_kwarg:
+            msg = f"'{spec}' uses variadic parameters, which are not supported"
+            raise ValueError(msg)
+
         if funcdef.params.kwonly_params or funcdef.params.posonly_params:
             msg = (
                 "Spec for '%s' uses keyword-only or positional-only arguments. "
@@ -97,6 +101,9 @@ class Operator:
             funcdef.params.posonly_params, funcdef.params.params, funcdef.params.kwonly_params
         ):
             name = param.name.value
+            if any(name == other.name for other in params):
+                msg = f"'{spec}' has more than one parameter '{name}'"
+                raise ValueError(msg)
             if param.annotation is None:
                 msg = "All parameters must have a valid annotation"
                 raise ValueError(msg)
-- 
2.43.0


From 2211a49e69181adf9b3ebf9dc1bfee8402487806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 097/120] fix: do not bind positional arguments to keyword-only
 quantization parameters

---
 src/fastforward/_quantops/operator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastforward/_quantops/operator.py b/src/fastforward/_quantops/operator.py
index a1edc3d..b6cf0fa 100644
--- a/src/fastforward/_quantops/operator.py
+++ b/src/fastforward/_quantops/operator.py
@@ -203,6 +203,11 @@ class Operator:
             msg = f"{self.identifier}() takes {len(params)} arguments but {len_args} were given"
             raise ValueError(msg)
 
+        if len(self.parameters) < len(args):
+            # quantization parameters are keyword-only
+            msg = f"{self.identifier}() takes {len(self.parameters)} positional arguments but {len(args)} were given"
+            raise ValueError(msg)
+
         for arg in args:
             name, param = params.popitem()
             bound_params[name] = (param, arg)
-- 
2.43.0


From 5dc0e7dd7413b7d0f797866a383a3ea6366b8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 098/120] fix: keep string defaults of optional and union
 parameters of operator specs

---
 src/fastforward/_quantops/generate.py | 4 ++--
 src/fastforward/_quantops/operator.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_quantops/generate.py b/src/fastforward/_quantops/generate.py
index 4ac5382..b9155c2 100644
--- a/src/fastforward/_quantops/generate.py
+++ b/src/fastforward/_quantops/generate.py
@@ -169,8 +169,8 @@ def _parameter(param: operator.Parameter) -> libcst.Param:
     default: libcst.BaseExpression | None = None
     if param.default_value is not None:
         default_value = param.default_value
-        if param.param_type is symtypes.String:
-            default_value = f"'{default_value}'"
+        if param.param_type == symtypes.String:
+            default_value = repr(default_value)
         default = libcst.parse_expression(default_value)
     return libcst.Param(
         name=libcst.Name(value=param.name),
diff --git a/src/fastforward/_quantops/operator.py b/src/fastforward/_quantops/operator.py
index b6cf0fa..f699f92 100644
--- a/src/fastforward/_quantops/operator.py
+++ b/src/fastforward/_quantops/operator.py
@@ -108,7 +108,9 @@ class Operator:
                 msg = "All parameters must have a valid annotation"
                 raise ValueError(msg)
             param_type = symtypes.type_from_cst_expression(param.annotation.annotation)
-            default = _get_default_value(param.default) if param.default is not None else None
+            default = (
+                _get_default_value(param.default, param_type) if param.default is not None else None
+            )
 
             params.append(Parameter(name=name, param_type=param_type, default_value=default))
 
@@ -253,9 +255,10 @@ class Operator:
         return True
 
 
-def _get_default_value(expr: libcst.BaseExpression) -> str:
+def _get_default_value(expr: libcst.BaseExpression, param_type: symtypes.Type) -> str:
     match expr:
-        case libcst.SimpleString():
+        # The quotes are only implied by the type for parameters that are always a string.
+        case libcst.SimpleString() if param_type == symtypes.String:
             return str(expr.evaluated_value)
         case _:
             return libcst.Module([]).code_for_node(expr)
-- 
2.43.0


From 955c967f24c826bb71dd652c02851dad400d682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 099/120] fix: generate operators from specifications outside
 of the working directory

---
 src/fastforward/_quantops/generate.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_quantops/generate.py b/src/fastforward/_quantops/generate.py
index b9155c2..d2a635f 100644
--- a/src/fastforward/_quantops/generate.py
+++ b/src/fastforward/_quantops/generate.py
@@ -40,6 +40,14 @@ class Writer(Protocol):
         raise NotImplementedError
 
 
+def _relative_to_cwd(path: pathlib.Path) -> pathlib.Path:
+    """Path relative to the current working directory, if it lies within."""
+    try:
+        return path.relative_to(pathlib.Path.cwd())
+    except ValueError:
+        return path
+
+
 class _ModuleGenerator:
     """Generates Python module code using LibCST."""
 
@@ -49,11 +57,7 @@ class _ModuleGenerator:
         Args:
             src_file: Source file path for header generation.
         """
-        try:
-            relative_src_path = src_file.relative_to(pathlib.Path.cwd())
-        except ValueError:
-            relative_src_path = src_file
-
+        relative_src_path = _relative_to_cwd(src_file)
         self._module = libcst.parse_module(module_header_raw.format(src_file=relative_src_path))
         self._imports: list[libcst.SimpleStatementLine | libcst.BaseCompoundStatement] = []
         self._header_parts: list[
@@ -224,7 +228,7 @@ def _operator_function_stub(
     else:
         raw_warning = (
             "Automatically generated based on "
-            f"{op.metadata.specification_file.relative_to(pathlib.Path.cwd())}:"
+            f"{_relative_to_cwd(op.metadata.specification_file)}:"
             f"{op.metadata.line_number}"
         )
     comments = (libcst.EmptyLine(comment=libcst.Comment(f"# {raw_warning}")),)
-- 
2.43.0


From 5eb376d87adf17172c302cf764841138a81d8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 100/120] fix: generate fallbacks for operators that do not
 return a quantized tensor

---
 src/fastforward/_quantops/generate.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_quantops/generate.py b/src/fastforward/_quantops/generate.py
index d2a635f..3282e6d 100644
--- a/src/fastforward/_quantops/generate.py
+++ b/src/fastforward/_quantops/generate.py
@@ -433,13 +433,14 @@ def _fallback_op(op: operator.Operator) -> libcst.FunctionDef:
     )
 
     # Apply quantizer if provided
-    body.append(
-        _simple_if(
-            "output_quantizer is not None",
-            "output = output_quantizer(output)",
-            leading_empty_line=False,
+    if op.returns_quantized:
+        body.append(
+            _simple_if(
+                "output_quantizer is not None",
+                "output = output_quantizer(output)",
+                leading_empty_line=False,
+            )
         )
-    )
     if op.metadata.cast_output is not None:
         body.append(_statement(f"return cast({op.metadata.cast_output}, output)"))
     else:
-- 
2.43.0


From 932f57871faec3e8c83e6f5105f3d5d3d889f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 101/120] fix: pad with constant values by default

---
 src/fastforward/_gen/fallback.py                   | 2 +-
 src/fastforward/_gen/operators.py                  | 2 +-
 src/fastforward/_quantops/quantized_operators.yaml | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_gen/fallback.py b/src/fastforward/_gen/fallback.py
index 016701d..7cf166a 100644
--- a/src/fastforward/_gen/fallback.py
+++ b/src/fastforward/_gen/fallback.py
@@ -1546,7 +1546,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_gen/operators.py b/src/fastforward/_gen/operators.py
index 3e53fd2..03c61af 100644
--- a/src/fastforward/_gen/operators.py
+++ b/src/fastforward/_gen/operators.py
@@ -1383,7 +1383,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_quantops/quantized_operators.yaml b/src/fastforward/_quantops/quantized_operators.yaml
index 8e0d3aa..1b85ab4 100644
--- a/src/fastforward/_quantops/quantized_operators.yaml
+++ b/src/fastforward/_quantops/quantized_operators.yaml
@@ -131,7 +131,7 @@
 - op: "cumsum(input: Quantized, dim: int) -> Quantized"
   fallback: torch.cumsum
 
-- op: "pad(input: Quantized, pad: Sequence[int], mode: str = ..., value: Optional[float] = None) -> Quantized"
+- op: "pad(input: Quantized, pad: Sequence[int], mode: str = 'constant', value: Optional[float] = None) -> Quantized"
   fallback: torch.nn.functional.pad
 
 # NOTE: return_indices is intentionally omitted from this spec. torch's max_pool2d
-- 
2.43.0


From 8a58b83f9806131039921a45bb04c51dd8da5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 102/120] fix: leave the operator table unchanged if an
 operator cannot be added

---
 src/fastforward/_quantops/optable.py | 62 +++++++++++++++-------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/fastforward/_quantops/optable.py b/src/fastforward/_quantops/optable.py
index 91e2d35..a1e4123 100644
--- a/src/fastforward/_quantops/optable.py
+++ b/src/fastforward/_quantops/optable.py
@@ -141,27 +141,35 @@ class OperatorTable:
             new_metadata = dataclasses.replace(operator.metadata, dispatch_op=dispatch_op)
             operator = dataclasses.replace(operator, metadata=new_metadata)
 
+        # Resolve all aliases first, the table does not change if one of them collides.
+        spec_idx = self._py_op_index.get(py_op, len(self._operator_specs))
+        alias_ops: dict[str, _PyOp] = {}
+        for alias_qualname in aliases:
+            alias_op = self._resolve_callable_alias(alias_qualname, metadata.fallback, spec_idx)
+            if alias_op is not None:
+                alias_ops[alias_qualname] = alias_op
+
         if py_op in self._py_op_index:
-            spec_idx = self._py_op_index[py_op]
             self._operator_specs[spec_idx].append(operator)
         else:
-            self._py_op_index[py_op] = spec_idx = len(self._operator_specs)
+            self._py_op_index[py_op] = spec_idx
             self._operator_specs.append([operator])
 
-            assert operator.metadata  # helping mypy and friends
-            for alias_ext in self._alias_extensions:
-                if alias := alias_ext(operator):
-                    self.add_alias(alias, py_op)
+        for alias_ext in self._alias_extensions:
+            if alias := alias_ext(operator):
+                self.add_alias(alias, py_op)
 
-        for alias_qualname in aliases:
-            self._register_callable_alias(alias_qualname, spec_idx)
+        for alias_qualname, alias_op in alias_ops.items():
+            self._py_op_index[alias_op] = spec_idx
+            self._py_op_aliases[alias_qualname] = alias_op
 
-    def _register_callable_alias(self, qualified_name: str, spec_idx: int) -> None:
-        """Register a qualified-name alias against an existing operator entry.
+    def _resolve_callable_alias(
+        self, qualified_name: str, fallback: str, spec_idx: int
+    ) -> _PyOp | None:
+        """Resolve a qualified-name alias of an operator entry.
 
-        Resolves `qualified_name` to a Python callable and adds it to
-        `_py_op_index` pointing to `spec_idx`. Also registers the qualified
-        name as a string alias.
+        Resolves `qualified_name` to a Python callable that can be added to
+        `_py_op_index` pointing to `spec_idx`.
 
         Import failures are logged and skipped — the rest of the table remains
         usable (e.g. when running against a torch version that lacks the alias).
@@ -178,23 +186,19 @@ class OperatorTable:
                 "is still registered.",
                 qualified_name,
             )
-            return
-
-        if alias_op in self._py_op_index:
-            existing_idx = self._py_op_index[alias_op]
-            if existing_idx != spec_idx:
-                canonical = self._operator_specs[spec_idx][0].metadata
-                other = self._operator_specs[existing_idx][0].metadata
-                assert canonical is not None and other is not None
-                msg = (
-                    f"Alias '{qualified_name}' for '{canonical.fallback}' is already "
-                    f"registered as the canonical or alias of '{other.fallback}'."
-                )
-                raise ValueError(msg)
-        else:
-            self._py_op_index[alias_op] = spec_idx
+            return None
+
+        existing_idx = self._py_op_index.get(alias_op, spec_idx)
+        if existing_idx != spec_idx:
+            other = self._operator_specs[existing_idx][0].metadata
+            assert other is not None
+            msg = (
+                f"Alias '{qualified_name}' for '{fallback}' is already "
+                f"registered as the canonical or alias of '{other.fallback}'."
+            )
+            raise ValueError(msg)
 
-        self._py_op_aliases[qualified_name] = alias_op
+        return alias_op  # type: ignore[no-any-return]
 
     def add(
         self,
-- 
2.43.0


From 72c4df63bfd581f8555ef217a68ad92f9fbbe8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 103/120] fix: guard optional lists of quantized tensors in
 generated operators

---
 src/fastforward/_quantops/generate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastforward/_quantops/generate.py b/src/fastforward/_quantops/generate.py
index 3282e6d..6e7156a 100644
--- a/src/fastforward/_quantops/generate.py
+++ b/src/fastforward/_quantops/generate.py
@@ -296,6 +296,11 @@ def _param_quantization_guard(param: operator.Parameter) -> list[libcst.BaseStat
     TQuantList = symtypes.List[symtypes.MaybeQuantized] | symtypes.List[symtypes.QuantizedTensor]
     if param.param_type in TQuantList:
         return _quantizer_list_param_quantization_guard(param)
+    list_type = symtypes.unwrap_optional(param.param_type)
+    if list_type in TQuantList:
+        list_param = operator.Parameter(list_type, param.name, param.default_value)
+        list_guard = _quantizer_list_param_quantization_guard(list_param)
+        return [_simple_if(f"{param.name} is not None", libcst.IndentedBlock(list_guard))]
     return _single_param_quantization_guard(param)
 
 
-- 
2.43.0


From 5b3f243b4b754c642beb7b6e96f02315594f92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 104/120] fix: run the requested partial of a registered
 algorithm

The arguments of a functools.partial passed to layerwise_optimize were ignored if no
targets were given, and the registered arguments were lost if only targets were given.
---
 src/fastforward/_orchestration/registry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/registry.py b/src/fastforward/_orchestration/registry.py
index 088b001..578c70f 100644
--- a/src/fastforward/_orchestration/registry.py
+++ b/src/fastforward/_orchestration/registry.py
@@ -38,6 +38,14 @@ def _algorithm_name(algorithm: Algorithm) -> str:
     return getattr(_algorithm_key(algorithm), "__name__", repr(algorithm))
 
 
+def _requested_algorithm(algorithm: Algorithm, registered: Algorithm) -> Algorithm:
+    """The algorithm to run when `algorithm` is requested and `registered` is registered for it.
+
+    The arguments of a requested `functools.partial` take precedence over the registration.
+    """
+    return algorithm if isinstance(algorithm, functools.partial) else registered
+
+
 TargetType: TypeAlias = (
     type[torch.nn.Module]
     | torch.nn.Module
@@ -245,7 +253,8 @@ class _AlgorithmRegistry(Mapping[Algorithm, AlgorithmSpec]):
             if key not in self._specs:
                 msg = f"No target registered for algorithm {_algorithm_name(algorithm)!r}."
                 raise NoTargetsFound(msg)
-            spec_list = [self._specs[key]]
+            spec = self._specs[key]
+            spec_list = [dataclasses.replace(spec, fn=_requested_algorithm(algorithm, spec.fn))]
 
         result: list[SubgraphSpec] = []
         for spec in spec_list:
@@ -323,7 +332,7 @@ def override(
         )
         raise ValueError(msg)
 
-    _registry.register(algorithm, targets, previous.flows)
+    _registry.register(_requested_algorithm(algorithm, previous.fn), targets, previous.flows)
     try:
         yield
     finally:
-- 
2.43.0


From d1441adfa2f3279af825d26a5686ac0e9f32cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 105/120] fix: only reuse quantized expressions that do not
 change between their uses

Autoquant evaluated expressions such as attributes ahead of their first use
and reused the result, even if the variables it depends on were assigned in
between or the expression is evaluated conditionally or in a nested scope.
---
 .../cst/quantizer_analysis/hoisting.py        | 183 ++++++++++++++++++
 .../cst/quantizer_analysis/transformer.py     |  42 +++-
 2 files changed, 217 insertions(+), 8 deletions(-)
 create mode 100644 src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
new file mode 100644
index 0000000..948bcde
--- /dev/null
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
@@ -0,0 +1,183 @@
+# Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+# SPDX-License-Identifier: BSD-3-Clause-Clear
+
+"""Decide whether an expression can be evaluated ahead of its use.
+
+Quantizing an expression once and reusing the result for all its uses is only
+valid if the expression is evaluated to the same value at each of these uses.
+"""
+
+from typing import Iterator, Sequence
+
+import libcst
+
+from fastforward._autoquant.cst import nodes
+
+_SIDE_EFFECT_NODES = (
+    libcst.Call,
+    libcst.NamedExpr,
+    libcst.Lambda,
+    libcst.Await,
+    libcst.Yield,
+    libcst.BaseComp,
+)
+
+_SCOPE_NODES = (libcst.FunctionDef, libcst.ClassDef, libcst.Lambda, libcst.BaseComp)
+
+
+def can_evaluate_once(
+    expr: libcst.BaseExpression,
+    body: Sequence[libcst.BaseStatement],
+    uses: Sequence[libcst.CSTNode],
+) -> bool:
+    """Whether `expr` can be evaluated once, just before its first use in `body`.
+
+    Args:
+        expr: The expression to evaluate.
+        body: The statements of a block.
+        uses: The nodes in `body` at which `expr` is used.
+
+    Returns:
+        True if evaluating `expr` directly before the first statement of `body`
+        that contains one of `uses` results in the same value as the evaluation
+        of `expr` at each of `uses`.
+    """
+    if any(isinstance(node, _SIDE_EFFECT_NODES) for node in _walk(expr)):
+        return False
+
+    use_indices = [_index_of_use(body, use) for use in uses]
+    if not use_indices or None in use_indices:
+        return False
+    indices = [idx for idx in use_indices if idx is not None]
+    first, last = min(indices), max(indices)
+
+    if any(_is_in_nested_scope(body[idx], use) for idx, use in zip(indices, uses)):
+        return False
+    if not _is_always_evaluated(body[first], {id(use) for use in uses}):
+        return False
+
+    dependencies = _dependencies(expr)
+    for idx in range(first, last + 1):
+        is_simple = isinstance(body[idx], libcst.SimpleStatementLine)
+        if dependencies & _modified_names(body[idx], skip_targets=is_simple and idx == last):
+            return False
+    return True
+
+
+def _walk(node: libcst.CSTNode) -> Iterator[libcst.CSTNode]:
+    yield node
+    for child in node.children:
+        yield from _walk(child)
+
+
+def _index_of_use(body: Sequence[libcst.BaseStatement], use: libcst.CSTNode) -> int | None:
+    for idx, statement in enumerate(body):
+        if any(node is use for node in _walk(statement)):
+            return idx
+    return None
+
+
+def _is_in_nested_scope(node: libcst.CSTNode, use: libcst.CSTNode) -> bool:
+    """Whether `use` is part of a scope that is nested in `node`."""
+    if node is use:
+        return False
+    if isinstance(node, _SCOPE_NODES):
+        return any(child is use for child in _walk(node))
+    return any(_is_in_nested_scope(child, use) for child in node.children)
+
+
+def _is_always_evaluated(node: libcst.CSTNode, uses: set[int]) -> bool:
+    """Whether one of `uses` is evaluated whenever `node` is.
+
+    The bodies of loops are considered to be evaluated at least once.
+    """
+    if id(node) in uses:
+        return True
+
+    match node:
+        case libcst.If(test=test, body=body, orelse=orelse):
+            if _is_always_evaluated(test, uses):
+                return True
+            return (
+                orelse is not None
+                and _is_always_evaluated(body, uses)
+                and _is_always_evaluated(orelse, uses)
+            )
+        case libcst.IfExp(test=test, body=if_true, orelse=if_false):
+            if _is_always_evaluated(test, uses):
+                return True
+            return _is_always_evaluated(if_true, uses) and _is_always_evaluated(if_false, uses)
+        case libcst.BooleanOperation(left=left):
+            return _is_always_evaluated(left, uses)
+        case libcst.Try() | libcst.TryStar() | libcst.Match():
+            return False
+        case _ if isinstance(node, _SCOPE_NODES):
+            return False
+        case _:
+            return any(_is_always_evaluated(child, uses) for child in node.children)
+
+
+def _dependencies(expr: libcst.BaseExpression) -> set[str]:
+    """Names that `expr` depends on, attributes are prefixed with a `.`."""
+    names = set[str]()
+    for node in _walk(expr):
+        match node:
+            case libcst.Attribute(attr=libcst.Name(attr)):
+                names.add(f".{attr}")
+            case libcst.Name(name):
+                names.add(name)
+    return names
+
+
+def _modified_names(node: libcst.CSTNode, skip_targets: bool = False) -> set[str]:
+    """Names and attributes that may be (re-)assigned or changed in place by `node`.
+
+    If `skip_targets` is True, the targets of assignment statements are ignored.
+    """
+    names = set[str]()
+    for subnode in _walk(node):
+        match subnode:
+            case libcst.AssignTarget(target=target) if not skip_targets:
+                names |= _target_names(target)
+            case nodes.GeneralAssignment(targets=targets) if not skip_targets:
+                for target in targets:
+                    names |= _target_names(target)
+            case libcst.AnnAssign(target=target) | libcst.AugAssign(target=target):
+                if not skip_targets:
+                    names |= _target_names(target)
+            case libcst.NamedExpr(target=target) | libcst.For(target=target):
+                names |= _target_names(target)
+            case libcst.Del(target=target):
+                names |= _target_names(target)
+            case libcst.AsName(name=target):
+                names |= _target_names(target)
+            case libcst.FunctionDef(name=name) | libcst.ClassDef(name=name):
+                names.add(name.value)
+            case libcst.Global(names=items) | libcst.Nonlocal(names=items):
+                names |= {item.name.value for item in items}
+            case libcst.ImportAlias(asname=None, name=target):
+                while isinstance(target, libcst.Attribute):
+                    target = target.value
+                names |= _target_names(target)
+            case libcst.MatchAs(name=libcst.Name(name)) | libcst.MatchStar(name=libcst.Name(name)):
+                names.add(name)
+            case libcst.Call(func=libcst.Attribute(value=value, attr=libcst.Name(attr))):
+                if attr.endswith("_") and not attr.endswith("__"):
+                    names |= _target_names(value)
+            case _:
+                pass
+    return names
+
+
+def _target_names(target: libcst.CSTNode) -> set[str]:
+    match target:
+        case libcst.Name(name):
+            return {name}
+        case libcst.Attribute(attr=libcst.Name(attr)):
+            return {f".{attr}"}
+        case libcst.Subscript(value=value) | libcst.StarredElement(value=value):
+            return _target_names(value)
+        case libcst.Tuple(elements=elements) | libcst.List(elements=elements):
+            return {name for element in elements for name in _target_names(element.value)}
+        case _:
+            return set()
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index 943c447..d8dc67c 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -20,6 +20,7 @@ from fastforward._autoquant.cst.quantizer_analysis.unimplemented import NotImple
 from fastforward._autoquant.pybuilder import QuantizerReferenceCollection
 
 from .annotator import QuantizationAnnotation, QuantizationAnnotationProvider
+from .hoisting import can_evaluate_once
 
 logger = logging.getLogger(__name__)
 
@@ -172,13 +173,17 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         return None
 
     @staticmethod
-    def _should_inline_quantized_use(use: libcst.CSTNode) -> bool:
+    def _should_inline_quantized_use(
+        use: libcst.CSTNode, block: libcst.IndentedBlock, annotation: QuantizationAnnotation
+    ) -> bool:
         """Return whether quantization of `use` must happen inline.
 
         Hoisting quantization of container/subscript expressions to the beginning
-        of a block can read loop-scoped locals before they are assigned.
+        of a block can read loop-scoped locals before they are assigned. The
+        same holds for any other expression that may evaluate to a different
+        value at each of its uses.
         """
-        return isinstance(
+        if isinstance(
             use,
             (
                 libcst.Subscript,
@@ -187,6 +192,10 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
                 libcst.Set,
                 libcst.Dict,
             ),
+        ):
+            return True
+        return isinstance(use, libcst.BaseExpression) and not can_evaluate_once(
+            use, block.body, annotation.uses
         )
 
     def _quantizer_ref_for_annotation(
@@ -252,7 +261,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
                 for use in annotation.uses:
                     if isinstance(use, libcst.Name):
                         self._expr_replacements[use] = libcst.Name(annotation.target)
-                    elif self._should_inline_quantized_use(use):
+                    elif self._should_inline_quantized_use(use, node, annotation):
                         if quantizer_ref is None:
                             quantizer_ref = self._quantizer_ref_for_annotation(annotation)
                         self._inline_quantize_replacements[use] = quantizer_ref
@@ -276,7 +285,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         quantize_statements: list[tuple[libcst.SimpleStatementLine, libcst.BaseExpression]] = []
         for annotation in annotations:
             use_expr = cast(libcst.BaseExpression, annotation.uses[0])
-            if self._should_inline_quantized_use(use_expr):
+            if self._should_inline_quantized_use(use_expr, original_node, annotation):
                 continue
 
             statement = create_quantize_statement(
@@ -750,7 +759,7 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
 
         first_stmt_idx: dict[str, int] = {}
         first_call_expr: dict[str, libcst.Call] = {}
-        counts: dict[str, int] = {}
+        call_nodes: dict[str, list[libcst.CSTNode]] = {}
 
         for idx, stmt in enumerate(body):
 
@@ -777,11 +786,15 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
                     del node
                     return False
 
+                def visit_Lambda(self, node: libcst.Lambda) -> bool:
+                    del node
+                    return False
+
                 def visit_Call(self, node: libcst.Call) -> bool:
                     key = _QuantizerCallDedup._call_key(node)
                     if key is None:
                         return True
-                    counts[key] = counts.get(key, 0) + 1
+                    call_nodes.setdefault(key, []).append(node)
                     if key not in first_stmt_idx:
                         first_stmt_idx[key] = idx
                         first_call_expr[key] = node
@@ -789,7 +802,16 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
 
             stmt.visit(_CallScan())
 
-        repeated_keys = [k for k, c in counts.items() if c > 1]
+        # Only calls that have the same result at each of their occurrences can
+        # share a temporary.
+        repeated_keys = [
+            key
+            for key, calls in call_nodes.items()
+            if len(calls) > 1
+            and all(
+                can_evaluate_once(arg.value, body, calls) for arg in first_call_expr[key].args
+            )
+        ]
         if not repeated_keys:
             return updated_node
 
@@ -818,6 +840,10 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
                 del node
                 return False
 
+            def visit_Lambda(self, node: libcst.Lambda) -> bool:
+                del node
+                return False
+
             def leave_Call(
                 self, original_node: libcst.Call, updated_node: libcst.Call
             ) -> libcst.BaseExpression:
-- 
2.43.0


From b468e6f5c67c441e23fcf39d3cdee9fa527e386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 106/120] fix: do not move operations out of lambdas and
 boolean operations

---
 src/fastforward/_autoquant/cst/passes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index 583e6a3..37fa034 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -525,7 +525,12 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         result = _tmp_2 + _tmp_3
     """
 
-    _SKIP_ISOLATION_NODES = (libcst.BaseComp, libcst.IfExp)
+    _SKIP_ISOLATION_NODES = (
+        libcst.BaseComp,
+        libcst.IfExp,
+        libcst.Lambda,
+        libcst.BooleanOperation,
+    )
 
     # _visit_stack is a stack of nodes that are currently visited, a node is
     # added to the stack after visit and popped from the stack before leave.
-- 
2.43.0


From 05575c7f5ed27c81256bd0fad33b8f81414d697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 107/120] fix: assign quantized expressions to unique variables

---
 .../cst/quantizer_analysis/annotator.py       | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
index 1e0b0d9..1fe9ec7 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
@@ -39,6 +39,7 @@ from libcst.metadata.expression_context_provider import (
 from typing_extensions import overload
 
 from fastforward._autoquant.cst import node_processing, nodes
+from fastforward._autoquant.cst.filter import filter_nodes_by_type
 from fastforward._autoquant.cst.nodes import is_simple_literal
 
 from .scope import QuantizationMetadata
@@ -109,13 +110,29 @@ class _NLBResolveContext:
         quantizer_ids: Maps code representations to unique quantizer IDs to ensure
             consistent quantizer usage across related expressions.
         block_annotations: Maps code blocks to their associated quantization annotations.
+        targets: Maps code representations to the variable to which the quantized
+            expression is assigned. These are unique for each expression.
+        used_names: Names that cannot be used as target because these are already in use.
     """
 
     quantizer_ids: dict[str, int] = dataclasses.field(default_factory=dict)
+    targets: dict[str, str] = dataclasses.field(default_factory=dict)
+    used_names: set[str] = dataclasses.field(default_factory=set)
     block_annotations: dict[libcst.IndentedBlock, list[QuantizationAnnotation]] = dataclasses.field(
         default_factory=lambda: collections.defaultdict(list)
     )
 
+    def _target_for_expression(self, code: str, expr: libcst.BaseExpression) -> str:
+        if code not in self.targets:
+            name = preferred_name = node_processing.expr_to_ident(expr)
+            suffix = 2
+            while name in self.used_names:
+                name = f"{preferred_name}_{suffix}"
+                suffix += 1
+            self.targets[code] = name
+            self.used_names.add(name)
+        return self.targets[code]
+
     def add_annotation_for_block(
         self, block: _BranchBlock, uses: Sequence[libcst.BaseExpression]
     ) -> None:
@@ -130,11 +147,10 @@ class _NLBResolveContext:
                 # Generate or reuse quantizer ID for expression deduplication.
                 # Identical expressions across usage sites share the same quantizer
                 # to maintain consistency in quantization behavior.
-                quantizer_id = self.quantizer_ids.setdefault(
-                    libcst.Module([]).code_for_node(uses[0]), len(self.quantizer_ids)
-                )
+                code = libcst.Module([]).code_for_node(uses[0])
+                quantizer_id = self.quantizer_ids.setdefault(code, len(self.quantizer_ids))
 
-                name = node_processing.expr_to_ident(uses[0])
+                name = self._target_for_expression(code, uses[0])
                 annotation = QuantizationAnnotation(
                     target=name,
                     uses=cast(list[libcst.CSTNode], uses),
@@ -205,16 +221,21 @@ class _NonLocalBranchScope:
             finally:
                 self._active_scope = current_scope
 
-    def resolve(self) -> Iterator[tuple[libcst.IndentedBlock, set[QuantizationAnnotation]]]:
+    def resolve(
+        self, used_names: set[str]
+    ) -> Iterator[tuple[libcst.IndentedBlock, set[QuantizationAnnotation]]]:
         """Resolves all recorded expressions and returns quantization annotations.
 
         This method determines where quantizers should be inserted for all recorded
         expressions and returns the appropriate annotations for each block.
 
+        Args:
+            used_names: Names that are already in use by other variables.
+
         Returns:
             Iterator of tuples containing a block and its associated quantization annotations.
         """
-        self._resolve(ctx := _NLBResolveContext())
+        self._resolve(ctx := _NLBResolveContext(used_names=set(used_names)))
         for block, annotations in ctx.block_annotations.items():
             yield block, set(annotations)
 
@@ -371,7 +392,8 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
             node.params.visit(self)
             node.body.visit(self)
 
-        for block, new_annotations in self._nonlocal_symbol_scope.resolve():
+        used_names = {name.value for name in filter_nodes_by_type(node, libcst.Name)}
+        for block, new_annotations in self._nonlocal_symbol_scope.resolve(used_names):
             annotation_set = self.get_annotations(block)
             annotation_set |= new_annotations
             self._provider.set_metadata(block, annotation_set)
-- 
2.43.0


From 45fa9b6d766f25ddf405f184e9a57e25c7aaba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 108/120] fix: keep references to functions that are not called
 in autoquant

---
 src/fastforward/_autoquant/autoquant.py | 31 ++++++++++---------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 69f84f0..c6529a6 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -645,27 +645,20 @@ def _resolve_all_quantized_calls(
     #    with concrete function calls containing the resolved quantizer arguments.
     #    Update the function builder `quantizer_signature` list based on the inferred
     #    signature.
-    _ambiguous_names: set[str] = set()
-    helper_name_map: dict[str, libcst.BaseExpression] = {}
-    for func_ref, replacement in helper_function_names.items():
-        old_name = func_ref.__name__
-        if old_name in _ambiguous_names:
-            continue
-        if old_name in helper_name_map:
-            del helper_name_map[old_name]
-            _ambiguous_names.add(old_name)
-        else:
-            helper_name_map[old_name] = replacement
-
-    rename_transformer = _RenameHelperRefsTransformer(helper_name_map)
+    #    References of a helper function to itself follow the rename. Any other
+    #    function that is not called but referred to by value keeps referring to
+    #    the original function since there are no quantizers to call the
+    #    quantized function with.
     call_transformer = _ResolveQuantizedCallsTransformer(calls, helper_function_names)
     for func_ref, func_builder in func_builder_map.items():
         func_builder.quantizer_signature = signatures.get(func_ref, ())
 
         new_funcdef = func_builder.cst.visit(call_transformer)
         assert isinstance(new_funcdef, libcst.FunctionDef)
-        new_funcdef = new_funcdef.visit(rename_transformer)
-        assert isinstance(new_funcdef, libcst.FunctionDef)
+        if func_ref in helper_function_names:
+            name_map = {func_ref.__name__: helper_function_names[func_ref]}
+            new_funcdef = new_funcdef.visit(_RenameHelperRefsTransformer(name_map))
+            assert isinstance(new_funcdef, libcst.FunctionDef)
         func_builder.cst = new_funcdef
 
 
@@ -941,10 +934,10 @@ def _resolve_calls(
 class _RenameHelperRefsTransformer(libcst.CSTTransformer):
     """Replace stale Name references to renamed helpers.
 
-    After autoquant renames helper functions (e.g. ``group_norm`` →
-    ``quantized_group_norm``), non-call references to the old name become
-    undefined.  This pass rewrites all such ``Name`` nodes.  Call-target
-    renames are already handled by ``_ResolveQuantizedCallsTransformer``.
+    After autoquant renames a helper function (e.g. ``group_norm`` →
+    ``quantized_group_norm``), the non-call references to itself are stale.
+    This pass rewrites all such ``Name`` nodes.  Call-target renames are
+    already handled by ``_ResolveQuantizedCallsTransformer``.
 
     Only standalone ``Name`` nodes are renamed — attribute accesses like
     ``torch.group_norm`` are left untouched because the ``attr`` part of an
-- 
2.43.0


From 77e8c47eddc1ace3e7e2af880790f0580a0008d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 109/120] fix: give every call in autoquantized code quantizers
 of its own

---
 src/fastforward/_autoquant/autoquant.py | 133 +++++++++++-------------
 1 file changed, 60 insertions(+), 73 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index c6529a6..f05e620 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -507,10 +507,17 @@ class _QuantizerRefTrace:
              For example, (func_a, func_b, func_c) means the quantizer originated in func_a,
              was passed to func_b, and then to func_c.
         ref: The quantizer reference object that is being tracked through the call graph.
+        calls: The calls through which the quantizer propagated, i.e., `calls[i]` is the
+             call in `src[i + 1]` to `src[i]`.
     """
 
     src: tuple[_FuncRef, ...]
     ref: nodes.QuantizerReference
+    calls: tuple[nodes.UnresolvedQuantizedCall, ...] = ()
+
+    def is_introduced_by(self, call: nodes.UnresolvedQuantizedCall) -> bool:
+        """True if the quantizer is required in the calling function because of `call`."""
+        return len(self.calls) > 0 and self.calls[-1] is call
 
 
 @dataclasses.dataclass
@@ -718,25 +725,16 @@ def _discover_quantized_functions(
 def _propagate_quantizers(func_specs: dict[_FuncRef, _QuantizedFunctionSpec]) -> None:
     """Propagate quantizer dependencies through the function call graph.
 
-    This function implements an iterative algorithm that ensures each function in the
-    call graph has access to all quantizers it needs, either directly or through
-    functions it calls.
-
-    The algorithm works by:
-    1. Iterating through all function specifications until no changes occur
-    2. For each function, examining all the functions it calls
-    3. Collecting quantizers from called functions and adding them as dependencies
-       while preserving per-callsite multiplicity
-    4. Tracking the source path of each quantizer to handle circular dependencies:
-       - If the current function already appears in a quantizer trace, truncate at
-         the first occurrence of the current function
-       - Otherwise, extend the path to include the current function
-    5. Updating call arguments when new quantizer dependencies are discovered
+    A function requires its local quantizers and, for each of its calls, the quantizers
+    that are required by the called function. Every call has quantizers of its own,
+    i.e., a function requires a local quantizer of another function once for every
+    sequence of calls that leads to that function.
 
     Circular dependency resolution:
-    When function A calls function B, and B (directly or indirectly) calls A,
-    the algorithm prevents infinite propagation by truncating traces that revisit
-    a function already present in the propagation path.
+    Only sequences of calls in which no function occurs twice are considered. When
+    function A calls function B, and B (directly or indirectly) calls A, the quantizers
+    that B requires because of its call to A are the quantizers that A requires itself,
+    i.e., the trace is truncated at A.
 
     Args:
         func_specs: Dictionary mapping function references to their quantized
@@ -744,53 +742,43 @@ def _propagate_quantizers(func_specs: dict[_FuncRef, _QuantizedFunctionSpec]) ->
 
     Side effects:
         Modifies the `calls` attribute of function specifications in-place to
-        include all required quantizer arguments for each function call.
+        include all required quantizer arguments for each function call. The arguments
+        of a call are aligned with the quantizers that are required by the called function.
     """
-    # Iterate until no more quantizers need propagation
-    changed = True
-    while changed:
-        changed = False
-
-        for func_ref, spec in func_specs.items():
-            # Check each function call to see if it needs additional quantizer args
-            for unresolved_call, call_args in spec.calls.items():
-                call_func_ref = unresolved_call.func_ref
-                new_call_args = []
-
-                callee_spec = func_specs[call_func_ref]
-
-                # Keep quantizer multiplicity per callee callsite while preventing
-                # unbounded growth from cyclic self/cross-call forwarding.
-                source_groups: list[list[_QuantizerRefTrace]] = [callee_spec.local_quantizers]
-                source_groups.extend(
-                    [arg for arg in callee_args if len(arg.src) > 1]
-                    for callee_args in callee_spec.calls.values()
-                )
 
-                for quant_group in source_groups:
-                    # Deduplicate only within the same source group (local refs or a
-                    # single callee callsite). This preserves per-callsite multiplicity
-                    # required by codegen while still collapsing cyclic duplicates.
-                    for quant_arg in dict.fromkeys(quant_group):
-                        # Break circular dependencies by truncating the source path
-                        # if this caller already appears in the propagation chain.
-                        #
-                        # Without this truncation, cycles can keep extending traces
-                        # indefinitely (e.g., (a, b, c) -> (a, b, c, b) -> ...),
-                        # preventing convergence of the fixed-point propagation loop.
-                        if func_ref in quant_arg.src:
-                            idx = quant_arg.src.index(func_ref)
-                            new_src = quant_arg.src[: idx + 1]
-                        else:
-                            # Extend source path to track propagation chain.
-                            new_src = quant_arg.src + (func_ref,)
-
-                        new_call_args.append(_QuantizerRefTrace(src=new_src, ref=quant_arg.ref))
-
-                # Update call args if new quantizers were discovered
-                if new_call_args != call_args:
-                    spec.calls[unresolved_call] = new_call_args
-                    changed = True
+    def _required_quantizers(
+        func_ref: _FuncRef, callers: frozenset[_FuncRef] = frozenset()
+    ) -> Iterator[_QuantizerRefTrace]:
+        spec = func_specs[func_ref]
+        callers |= {func_ref}
+        yield from spec.local_quantizers
+        for call in spec.calls:
+            if call.func_ref not in callers:
+                for trace in _required_quantizers(call.func_ref, callers):
+                    yield _propagate(trace, func_ref, call)
+
+    def _propagate(
+        trace: _QuantizerRefTrace, func_ref: _FuncRef, call: nodes.UnresolvedQuantizedCall
+    ) -> _QuantizerRefTrace:
+        src, calls = trace.src + (func_ref,), trace.calls + (call,)
+        return _QuantizerRefTrace(src=src, ref=trace.ref, calls=calls)
+
+    required_quantizers = {func_ref: tuple(_required_quantizers(func_ref)) for func_ref in func_specs}
+    for func_ref, spec in func_specs.items():
+        for call in spec.calls:
+            call_args: list[_QuantizerRefTrace] = []
+            for trace in required_quantizers[call.func_ref]:
+                if func_ref in trace.src:
+                    # The quantizer is required because of a (recursive) call to
+                    # this function, for which its own quantizers are used.
+                    idx = trace.src.index(func_ref)
+                    trace = dataclasses.replace(
+                        trace, src=trace.src[: idx + 1], calls=trace.calls[:idx]
+                    )
+                else:
+                    trace = _propagate(trace, func_ref, call)
+                call_args.append(trace)
+            spec.calls[call] = call_args
 
 
 _SignatureRefMap: TypeAlias = dict[
@@ -840,29 +828,28 @@ def _generate_signatures(
         # Create function signature from quantizer arguments
         signature = []
         refs = {}
+        trace_refs: dict[_QuantizerRefTrace, nodes.QuantizerReference] = {}
 
         for arg in spec.local_quantizers:
             signature.append(arg.ref)
+            trace_refs[arg] = arg.ref
 
         for unresolved_call, quant_args in spec.calls.items():
-            mapped_refs: list[nodes.QuantizerReference] = []
             for arg in quant_args:
-                if len(arg.src) == 1:
-                    # The quantizer already belongs to the current function's
-                    # signature/local refs (e.g., recursive cycle back-edge).
-                    # Reuse that reference directly instead of creating an
-                    # extra prefixed parameter.
-                    mapped_refs.append(arg.ref)
+                if not arg.is_introduced_by(unresolved_call):
                     continue
-
                 with quantizer_refs.push_context(func_contexts[func_ref]):
                     prefix = "_".join(fn.__name__ for fn in reversed(arg.src[:-1]))
                     name = f"{prefix}_{arg.ref.value}"
                     sigref = quantizer_refs.create_reference(name)
                 signature.append(sigref)
-                mapped_refs.append(sigref)
+                trace_refs[arg] = sigref
 
-            refs[unresolved_call] = mapped_refs
+        # Quantizers that are not introduced by a call (e.g., recursive cycle
+        # back-edge) already belong to the current function's signature. Reuse that
+        # reference directly instead of creating an extra prefixed parameter.
+        for unresolved_call, quant_args in spec.calls.items():
+            refs[unresolved_call] = [trace_refs[arg] for arg in quant_args]
 
         signatures[func_ref] = tuple(signature)
         signature_ref_map[func_ref] = refs
@@ -911,7 +898,7 @@ def _resolve_calls(
             callee_signature = signatures[unresolved_call.func_ref]
             caller_mapped_refs = signature_ref_map.get(func_ref, {}).get(unresolved_call)
 
-            for idx, (param, arg) in enumerate(zip(callee_signature, args)):
+            for idx, (param, arg) in enumerate(zip(callee_signature, args, strict=True)):
                 if is_instance_method:
                     with quantizer_refs.push_context(func_contexts[func_ref]):
                         prefix = "_".join(fn.__name__ for fn in reversed(arg.src[:-1]))
-- 
2.43.0


From 2befc6efc6ef024cb20dea8602e7bf100fd1fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 110/120] fix: only move operations out of statements if they
 are always evaluated

---
 src/fastforward/_autoquant/cst/passes.py | 25 ++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index 37fa034..82c2494 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -564,21 +564,38 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
     @override
     def on_visit(self, node: libcst.CSTNode) -> bool:
         visit_children = super().on_visit(node)
-        self._visit_stack.append(node)
-        if isinstance(node, self._SKIP_ISOLATION_NODES):
+        if self._is_no_isolation_root(node):
             self._nested_in_no_isolation_subtree += 1
+        self._visit_stack.append(node)
         return visit_children
 
+    def _is_no_isolation_root(self, node: libcst.CSTNode) -> bool:
+        """True if the expressions in `node` cannot be moved out of `node`.
+
+        This is the case for expressions that are not always evaluated, and for
+        statements that assign to variables that their expressions may use.
+        """
+        match node:
+            case libcst.Comparison():
+                return len(node.comparisons) > 1
+            case libcst.SimpleStatementLine():
+                return len(m.findall(node, m.NamedExpr())) > 0
+            case _:
+                parent = self.parent()
+                is_assert_message = isinstance(parent, libcst.Assert) and parent.msg is node
+                return is_assert_message or isinstance(node, self._SKIP_ISOLATION_NODES)
+
     @override
     def on_leave(
         self, original_node: libcst.CSTNodeT, updated_node: libcst.CSTNodeT
     ) -> libcst.CSTNodeT | libcst.RemovalSentinel:
         top = self._visit_stack.pop()
-        if isinstance(top, self._SKIP_ISOLATION_NODES):
-            self._nested_in_no_isolation_subtree -= 1
 
         result_node = super().on_leave(original_node, updated_node)
 
+        if self._is_no_isolation_root(top):
+            self._nested_in_no_isolation_subtree -= 1
+
         # Don't allow for Removal- or FlattenSentinel as these could remove
         # insertion points.
         if isinstance(result_node, (libcst.RemovalSentinel, libcst.FlattenSentinel)):
-- 
2.43.0


From d9255bfbbe5c0a04bd15910a25293786f937ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 111/120] fix: do not rename keywords and parameters with the
 name of a helper in autoquant

---
 src/fastforward/_autoquant/autoquant.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index f05e620..b3ed011 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -662,7 +662,8 @@ def _resolve_all_quantized_calls(
 
         new_funcdef = func_builder.cst.visit(call_transformer)
         assert isinstance(new_funcdef, libcst.FunctionDef)
-        if func_ref in helper_function_names:
+        has_param_with_own_name = func_ref.__name__ in inspect.signature(func_ref).parameters
+        if func_ref in helper_function_names and not has_param_with_own_name:
             name_map = {func_ref.__name__: helper_function_names[func_ref]}
             new_funcdef = new_funcdef.visit(_RenameHelperRefsTransformer(name_map))
             assert isinstance(new_funcdef, libcst.FunctionDef)
@@ -927,8 +928,9 @@ class _RenameHelperRefsTransformer(libcst.CSTTransformer):
     already handled by ``_ResolveQuantizedCallsTransformer``.
 
     Only standalone ``Name`` nodes are renamed — attribute accesses like
-    ``torch.group_norm`` are left untouched because the ``attr`` part of an
-    ``Attribute`` node is not an independent reference.
+    ``torch.group_norm`` and the keywords of arguments are left untouched
+    because the ``attr`` part of an ``Attribute`` node and the ``keyword`` part of
+    an ``Arg`` node are not independent references.
     """
 
     def __init__(self, name_map: dict[str, libcst.BaseExpression]) -> None:
@@ -939,6 +941,11 @@ class _RenameHelperRefsTransformer(libcst.CSTTransformer):
         self._inside_attr.add(id(node.attr))
         return True
 
+    def visit_Arg(self, node: libcst.Arg) -> bool:
+        if node.keyword is not None:
+            self._inside_attr.add(id(node.keyword))
+        return True
+
     def leave_Attribute(
         self,
         original_node: libcst.Attribute,
@@ -947,6 +954,10 @@ class _RenameHelperRefsTransformer(libcst.CSTTransformer):
         self._inside_attr.discard(id(original_node.attr))
         return updated_node
 
+    def leave_Arg(self, original_node: libcst.Arg, updated_node: libcst.Arg) -> libcst.Arg:
+        self._inside_attr.discard(id(original_node.keyword))
+        return updated_node
+
     def leave_Name(
         self,
         original_node: libcst.Name,
-- 
2.43.0


From 272c0942b1c0c90be3862013522c6891630f07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 112/120] fix: infer the data types of the quantization
 operators when tracing

---
 .../quantization/_quantizer_impl.py           | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index 1db3082..e7e86c0 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -292,6 +292,13 @@ def quantize_dynamic_by_tile_impl(
     return result, scale, offset
 
 
+def _promoted_dtype(
+    dtype: torch.dtype, scale: torch.Tensor, offset: torch.Tensor | None
+) -> torch.dtype:
+    dtype = torch.promote_types(dtype, scale.dtype)
+    return dtype if offset is None else torch.promote_types(dtype, offset.dtype)
+
+
 @register_fake("fastforward::quantize_by_tile")  # type: ignore[untyped-decorator]
 def quantize_by_tile_meta(
     input: torch.Tensor,
@@ -301,8 +308,9 @@ def quantize_by_tile_meta(
     output_dtype: torch.dtype | None,
     offset: torch.Tensor | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, num_bits, output_dtype, offset
-    return torch.empty_like(input)
+    del tile_size, num_bits
+    output_dtype = output_dtype or _promoted_dtype(input.dtype, scale, offset)
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::dequantize_by_tile")  # type: ignore[untyped-decorator]
@@ -313,8 +321,11 @@ def dequantize_by_tile_meta(
     offset: torch.Tensor | None = None,
     output_dtype: torch.dtype | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, offset, output_dtype
-    return torch.empty_like(input)
+    del tile_size
+    is_float8 = input.is_floating_point() and input.dtype.itemsize == 1
+    input_dtype = scale.dtype if is_float8 else input.dtype
+    output_dtype = output_dtype or _promoted_dtype(input_dtype, scale, offset)
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::quantize_by_tile_backward")  # type: ignore[untyped-decorator]
@@ -326,8 +337,14 @@ def quantize_by_tile_backward_meta(
     num_bits: float,
     offset: torch.Tensor | None = None,
 ) -> List[torch.Tensor]:  # noqa: UP006
-    del output_grad, tile_size, num_bits, offset
-    return [torch.empty_like(input), torch.empty_like(scale), torch.empty_like(scale)]
+    del tile_size, num_bits
+    if offset is None:
+        doffset = torch.empty(0)
+    else:
+        doffset_dtype = torch.promote_types(scale.dtype, output_grad.dtype)
+        doffset = torch.empty_like(scale, dtype=doffset_dtype)
+    dinput = torch.empty_like(input, dtype=output_grad.dtype)
+    return [dinput, torch.empty_like(scale), doffset]
 
 
 @register_fake("fastforward::quantize_dynamic_by_tile")  # type: ignore[untyped-decorator]
@@ -339,8 +356,9 @@ def quantize_dynamic_by_tile_meta(
     allow_one_sided: bool,
     output_dtype: torch.dtype | None,
 ) -> RT:
-    del num_bits, symmetric, allow_one_sided, output_dtype
+    del num_bits, symmetric, allow_one_sided
     num_params = int(input.numel() / torch.Size(tile_size).numel())
-    scale = torch.empty(num_params)
-    offset = torch.empty(num_params)
-    return torch.empty_like(input), scale, offset
+    scale = input.new_empty(num_params, dtype=torch.float32)
+    offset = input.new_empty(num_params, dtype=torch.float32)
+    output_dtype = output_dtype or _promoted_dtype(input.dtype, scale, offset)
+    return torch.empty_like(input, dtype=output_dtype), scale, offset
-- 
2.43.0


From ce66531b031a2600f5e1662f857effd1de30770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 113/120] fix: quantize expressions after the branches that
 quantize them themselves

Autoquant inserted the quantization of an expression before the first statement
that loads its variable, also if that statement is a branch that assigns the
variable itself. The expression was then evaluated before its operands changed.
---
 .../_autoquant/cst/quantizer_analysis/transformer.py   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index d8dc67c..99c754a 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -652,6 +652,16 @@ class _BlockScopeNameLoadFinder(libcst.CSTVisitor):
         del node
         return False
 
+    @override
+    def visit_IndentedBlock(self, node: libcst.IndentedBlock) -> bool:
+        # The uses in blocks that quantize the expression themselves do not
+        # depend on the value that is assigned outside of these blocks.
+        return not any(
+            isinstance(stmt, libcst.SimpleStatementLine)
+            and _quantize_statement_target_name(stmt) == self._target_name
+            for stmt in node.body
+        )
+
     @override
     def visit_Name(self, node: libcst.Name) -> bool:
         if node.value == self._target_name and id(node) not in self._exclude_ids:
-- 
2.43.0


From e222a1783180f2768d3bbdec134f3757d99ea789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 114/120] fix: annotate quantizers that share an input or are
 initialized

---
 .../quantization/quantizer_annotations.py     | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/quantization/quantizer_annotations.py b/src/fastforward/quantization/quantizer_annotations.py
index 034f86e..64fcc93 100644
--- a/src/fastforward/quantization/quantizer_annotations.py
+++ b/src/fastforward/quantization/quantizer_annotations.py
@@ -45,7 +45,12 @@ class TraceTensor(torch.Tensor):
             return arg
 
         def _annotate_output(result: Any) -> Any:
-            if isinstance(result, torch.Tensor) and not isinstance(result, TraceTensor):
+            if isinstance(result, TraceTensor) and versions.get(id(result)) != result._version:
+                # Either a new tensor or an input that is updated in place.
+                result.previous_quantizer = None
+            elif isinstance(result, torch.Tensor):
+                # An operation may return its input, that is still the result of the
+                # preceding operation or quantizer elsewhere.
                 result = TraceTensor(result)
             if isinstance(result, TraceTensor):
                 result.previous_function = func
@@ -55,8 +60,13 @@ class TraceTensor(torch.Tensor):
         args, kwargs = optree.tree_map(_annotate_input, (args, kwargs))  # type: ignore[arg-type]
 
         with _C.DisableTorchFunctionSubclass():
+            versions = {
+                id(arg): arg._version
+                for arg in optree.tree_leaves((args, kwargs))  # type: ignore[arg-type]
+                if isinstance(arg, TraceTensor)
+            }
             output = func(*args, **kwargs)
-        (output,) = optree.tree_map(_annotate_output, (output,))  # type: ignore[arg-type]
+            (output,) = optree.tree_map(_annotate_output, (output,))  # type: ignore[arg-type]
         return output
 
 
@@ -89,9 +99,10 @@ def quantizer_override(
         and quantizer.quant_metadata is not None
     ):
         quantizer.quant_metadata.add_tag(Tag("after") / data.previous_function.__name__)
-    quantized = callback(*args, **kwargs)
-    if not isinstance(quantized, TraceTensor):
-        quantized = TraceTensor(quantized)
+    # A disabled quantizer returns its input, to which this quantizer does not apply elsewhere.
+    quantized = TraceTensor(callback(*args, **kwargs))
+    if isinstance(data, TraceTensor):
+        quantized.previous_function = data.previous_function
     quantized.previous_quantizer = quantizer
     return quantized
 
@@ -119,10 +130,12 @@ def annotate_operator_metadata(model: "ff.nn.QuantizedModule", sample_input: tor
     trace_tensor = TraceTensor(sample_input)
     handles = []
     try:
-        for _, quantizer in model.named_quantizers(skip_stubs=False):
-            handles.append(quantizer.register_override(quantizer_override))
-
         with torch.no_grad(), ff.disable_quantization(model):
+            # Register after quantization is disabled: disabled quantizers do not call
+            # overrides that were registered before.
+            for _, quantizer in model.named_quantizers(skip_stubs=False):
+                handles.append(quantizer.register_override(quantizer_override))
+
             model(trace_tensor)
     finally:
         for handle in handles:
-- 
2.43.0


From 02343fbfb92571647f20d213e3b13f262c242950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 115/120] fix: create quantization functions with defaults that
 precede or are tensors

---
 src/fastforward/quantization/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/function.py b/src/fastforward/quantization/function.py
index 62a9f3c..3b3db24 100644
--- a/src/fastforward/quantization/function.py
+++ b/src/fastforward/quantization/function.py
@@ -279,17 +279,21 @@ def _make_quantization_parameters_type(
                 + "quantize and dequantize function"
             )
             raise TypeError(msg)
-        if quantize_field.default != dequantize_field.default:
+        # Not all values, e.g., tensors, can be compared using `!=`
+        same_default = quantize_field.default is dequantize_field.default
+        if not same_default and quantize_field.default != dequantize_field.default:
             msg = (
                 "The default value for '{param}' must be the same in both the "
                 + "quantize and dequantize function"
             )
             raise ValueError(msg)
 
-    fields = (
+    fields = [
         (param, annotation, field)
         for param, (annotation, field) in {**quantize_params, **dequantize_params}.items()
-    )
+    ]
+    # Fields without a default may only follow each other, also if they come from different functions
+    fields.sort(key=lambda field: field[2].default is not dataclasses.MISSING)
 
     def _quantize_params(self: _QuantParamsWithDict) -> dict[str, Any]:
         return {name: getattr(self, name) for name in quantize_params}
-- 
2.43.0


From 5160ca4efd31488b3ced9970091e0f30c93d2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 116/120] fix: tell symbols with the same name, of different
 modules, apart in autoquant

---
 src/fastforward/_autoquant/autoquant.py       |  1 +
 .../_autoquant/pybuilder/builder.py           | 85 ++++++++++++++++++-
 src/fastforward/_autoquant/pysource/scope.py  | 61 ++++++++++++-
 3 files changed, 142 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index b3ed011..9145d8a 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -634,6 +634,7 @@ def _resolve_all_quantized_calls(
     for func_builder in builder.functions():
         if func_builder.origin.method_type is not MethodType.NO_METHOD:
             used_global_names.add(func_builder.name)
+        used_global_names.update(imp.local_name for imp in func_builder.required_imports)
 
     for func_ref, func_builder in func_builder_map.items():
         if func_builder.origin.method_type is MethodType.NO_METHOD:
diff --git a/src/fastforward/_autoquant/pybuilder/builder.py b/src/fastforward/_autoquant/pybuilder/builder.py
index 42edb73..dd1e3cc 100644
--- a/src/fastforward/_autoquant/pybuilder/builder.py
+++ b/src/fastforward/_autoquant/pybuilder/builder.py
@@ -9,19 +9,23 @@ construction using libCST.
 """
 
 import abc
+import dataclasses
 
 from collections.abc import Sequence
 from typing import Any, Generic, Iterable, Iterator, Protocol, TypeVar, cast, runtime_checkable
 
 import libcst
 import libcst.helpers
+import libcst.matchers as matchers
 
 from typing_extensions import override
 
 from fastforward._autoquant.cst import node_creation, nodes
 from fastforward._autoquant.function_context import FunctionContext
 from fastforward._autoquant.pybuilder import QuantizerReferenceCollection
-from fastforward._autoquant.pysource.scope import ImportSymbol
+from fastforward._autoquant.pysource.scope import ImportSymbol, rename_global_references
+
+_NAME = matchers.Name()
 
 _CSTNodeT_co = TypeVar("_CSTNodeT_co", bound=libcst.CSTNode, covariant=True)
 
@@ -100,7 +104,57 @@ class ModuleBuilder(NodeBuilder[libcst.Module]):
         self, quantizer_refs: QuantizerReferenceCollection
     ) -> Sequence[libcst.SimpleStatementLine | libcst.BaseCompoundStatement]:
         """Create Module from collected metadata."""
-        return list(self.import_statements()) + [c.build(quantizer_refs) for c in self._statements]
+        self._disambiguate_imports()
+        statements: list[libcst.SimpleStatementLine | libcst.BaseCompoundStatement] = []
+        for builder in self._statements:
+            statement = builder.build(quantizer_refs)
+            if isinstance(builder, FunctionBuilder) and isinstance(statement, libcst.FunctionDef):
+                statement = builder.rename_imports(statement)
+            statements.append(statement)
+        return list(self.import_statements()) + statements
+
+    def _disambiguate_imports(self) -> None:
+        """Choose another name for imports that share their name with a different symbol.
+
+        The functions in the module may originate from different modules, in
+        which the same name may refer to different symbols.
+        """
+        functions = tuple(self.functions())
+        symbols = {imp for cls in self.classes() for imp in cls.base_imports}
+        symbols |= {imp for func in functions for imp in func.required_imports}
+
+        # A module, class or function in the generated module keeps its name.
+        bindings: dict[str, ImportSymbol | None] = {
+            stmt.name: None
+            for stmt in self._statements
+            if isinstance(stmt, (ClassBuilder, FunctionBuilder))
+        }
+        for symbol in symbols:
+            if symbol.module is None and symbol.asname is None:
+                bindings[symbol.local_name] = None
+        for cls in self.classes():
+            for symbol in cls.base_imports:
+                bindings.setdefault(symbol.local_name, symbol)
+
+        used_names = set(bindings) | {symbol.local_name for symbol in symbols}
+        for func in functions:
+            used_names |= {cast(libcst.Name, n).value for n in matchers.findall(func.cst, _NAME)}
+
+        aliases: dict[ImportSymbol, str] = {}
+        for func in functions:
+            for symbol in sorted(func.required_imports, key=repr):
+                if symbol.module is None and symbol.asname is None:
+                    continue
+                name = symbol.local_name
+                if bindings.setdefault(name, symbol) == symbol:
+                    continue
+                if symbol not in aliases:
+                    suffix = 2
+                    while f"{name}_{suffix}" in used_names:
+                        suffix += 1
+                    aliases[symbol] = f"{name}_{suffix}"
+                    used_names.add(aliases[symbol])
+                func.import_aliases[symbol] = aliases[symbol]
 
     def classes(self) -> Iterator["ClassBuilder"]:
         yield from (stmt for stmt in self._statements if isinstance(stmt, ClassBuilder))
@@ -155,6 +209,11 @@ class ClassBuilder(NodeBuilder[libcst.ClassDef]):
     def name(self) -> str:
         return self._name
 
+    @property
+    def base_imports(self) -> tuple[ImportSymbol, ...]:
+        """Imports that are required for this class, but not for its methods."""
+        return self._required_imports
+
     @property
     def required_imports(self) -> tuple[ImportSymbol, ...]:
         """Imports that are required for this class."""
@@ -182,10 +241,17 @@ class ClassBuilder(NodeBuilder[libcst.ClassDef]):
         class_def = base_def.with_changes(
             body=libcst.IndentedBlock([func.build(quantizer_refs) for func in methods])
         )
-        return cast(
+        class_def = cast(
             libcst.ClassDef,
             class_def.visit(_ResolveAbstractClassReferences(libcst.Name(self._name))),
         )
+        body = [
+            func.rename_imports(cast(libcst.FunctionDef, stmt))
+            if isinstance(func, FunctionBuilder)
+            else stmt
+            for func, stmt in zip(methods, class_def.body.body)
+        ]
+        return class_def.with_changes(body=class_def.body.with_changes(body=body))
 
     def methods(self) -> Iterator["FunctionBuilder"]:
         yield from self._methods
@@ -256,6 +322,7 @@ class FunctionBuilder(NodeBuilder[libcst.FunctionDef]):
         super().__init__(origin=origin)
         self._funcdef = funcdef
         self._required_imports = tuple(required_imports)
+        self.import_aliases: dict[ImportSymbol, str] = {}
 
     @property
     def cst(self) -> libcst.FunctionDef:
@@ -268,7 +335,17 @@ class FunctionBuilder(NodeBuilder[libcst.FunctionDef]):
     @property
     def required_imports(self) -> tuple[ImportSymbol, ...]:
         """Imports that are required for this function."""
-        return self._required_imports
+        return tuple(
+            dataclasses.replace(symbol, asname=self.import_aliases.get(symbol, symbol.asname))
+            for symbol in self._required_imports
+        )
+
+    def rename_imports(self, funcdef: libcst.FunctionDef) -> libcst.FunctionDef:
+        """Refer to imports in `funcdef`, built by this builder, by their alias."""
+        if not self.import_aliases:
+            return funcdef
+        names = {symbol.local_name: alias for symbol, alias in self.import_aliases.items()}
+        return rename_global_references(funcdef, names)
 
     @override
     def build(self, quantizer_refs: QuantizerReferenceCollection) -> libcst.FunctionDef:
diff --git a/src/fastforward/_autoquant/pysource/scope.py b/src/fastforward/_autoquant/pysource/scope.py
index f2a6c17..7ba3d27 100644
--- a/src/fastforward/_autoquant/pysource/scope.py
+++ b/src/fastforward/_autoquant/pysource/scope.py
@@ -4,9 +4,11 @@
 import dataclasses
 import keyword
 
+from collections.abc import Mapping
+
 import libcst
 
-from libcst.metadata import FunctionScope, GlobalScope, Scope
+from libcst.metadata import BuiltinAssignment, FunctionScope, GlobalScope, Scope
 from libcst.metadata import ScopeProvider as _ScopeProvider
 from libcst.metadata.scope_provider import ScopeVisitor as _ScopeVisitor
 
@@ -39,6 +41,13 @@ class ImportSymbol:
 
         return self._is_valid_dotted_name(self.module) and self._is_valid_identifier(self.name)
 
+    @property
+    def local_name(self) -> str:
+        """The name that importing the symbol binds."""
+        if self.module is None and self.asname is None:
+            return self.name.split(".", 1)[0]
+        return self.asname or self.name
+
     def as_fallback_node(self) -> libcst.SimpleStatementLine:
         local_name = self.asname or self.name
         if not self._is_valid_identifier(local_name):
@@ -182,6 +191,56 @@ def _get_function_scope(funcdef: libcst.FunctionDef) -> FunctionScope:
     return function_scope
 
 
+def rename_global_references(
+    funcdef: libcst.FunctionDef, names: Mapping[str, str]
+) -> libcst.FunctionDef:
+    """Rename references to symbols that are defined outside of `funcdef`.
+
+    Args:
+        funcdef: The function for which to rename references.
+        names: The new name for each symbol that must be renamed.
+
+    Returns:
+        `funcdef` with renamed references. Symbols that `funcdef`, or a function
+        nested in `funcdef`, defines are not renamed.
+    """
+    # Render `funcdef` since specialized nodes obscure the accesses in a scope.
+    module = libcst.parse_module(libcst.Module([funcdef]).code)
+    wrapper = libcst.MetadataWrapper(module, unsafe_skip_copy=True)
+    references: set[libcst.CSTNode] = set()
+    for scope in set(wrapper.resolve(_ScopeProvider).values()):
+        for access in scope.accesses if scope is not None else ():
+            if all(isinstance(referent, BuiltinAssignment) for referent in access.referents):
+                references.add(_root_name(access.node))
+
+    module = module.visit(_RenameNodesTransformer(references, names))
+    renamed_funcdef = module.body[0]
+    assert isinstance(renamed_funcdef, libcst.FunctionDef)
+    return renamed_funcdef
+
+
+def _root_name(node: libcst.CSTNode) -> libcst.CSTNode:
+    while isinstance(node, libcst.Attribute):
+        node = node.value
+    return node
+
+
+class _RenameNodesTransformer(libcst.CSTTransformer):
+    """Rename the `Name` nodes in `nodes`."""
+
+    def __init__(self, nodes: set[libcst.CSTNode], names: Mapping[str, str]) -> None:
+        super().__init__()
+        self._nodes = nodes
+        self._names = names
+
+    def leave_Name(self, original_node: libcst.Name, updated_node: libcst.Name) -> libcst.Name:
+        if original_node not in self._nodes:
+            return updated_node
+        return updated_node.with_changes(
+            value=self._names.get(original_node.value, original_node.value)
+        )
+
+
 class _RequiredSymbolsVisitor(libcst.CSTVisitor):
     """Extract symbols that require import from CST."""
 
-- 
2.43.0


From c6d75b9101190ec6ae19e098fdcaa4845a80c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 117/120] fix: do not quantize helpers with decorators that do
 not pass on the quantizers

---
 src/fastforward/_autoquant/autoquant.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 9145d8a..a23bda4 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -1148,7 +1148,7 @@ def _find_dependent_functions(
                     # Registered operators are quantized via direct callsite replacement.
                     # Do not descend into their Python fallback implementation, or we may
                     # emit redundant wrappers for already-supported ops.
-                    if ref in operator_table:
+                    if ref in operator_table or not _accepts_quantizers(ref):
                         continue
 
                     alias = None
@@ -1198,7 +1198,7 @@ def _find_dependent_functions(
 
                     # Keep registered operators as leaf nodes handled by the operator
                     # table to avoid generating wrappers for their Python fallbacks.
-                    if ref in operator_table:
+                    if ref in operator_table or not _accepts_quantizers(ref):
                         continue
 
                     yield _AqTask(
@@ -1208,6 +1208,16 @@ def _find_dependent_functions(
                     )
 
 
+def _accepts_quantizers(func: Callable[..., Any]) -> bool:
+    """Return True if quantizers can be passed, as keyword arguments, through decorators of `func`."""
+    while hasattr(func, "__wrapped__"):
+        parameters = inspect.signature(func, follow_wrapped=False).parameters.values()
+        if not any(param.kind is inspect.Parameter.VAR_KEYWORD for param in parameters):
+            return False
+        func = func.__wrapped__
+    return True
+
+
 def _scope_vars_and_module_refs(
     ModuleType: type[torch.nn.Module] | types.ModuleType, func_name: str
 ) -> tuple[dict[str, Any], set[str]]:
-- 
2.43.0


From 4c19a7f840bb1a36db8747252201fec57640dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 118/120] fix: import symbols that have several definitions
 from their own module in autoquant

---
 src/fastforward/_autoquant/pysource/scope.py | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_autoquant/pysource/scope.py b/src/fastforward/_autoquant/pysource/scope.py
index 7ba3d27..b045cb8 100644
--- a/src/fastforward/_autoquant/pysource/scope.py
+++ b/src/fastforward/_autoquant/pysource/scope.py
@@ -262,24 +262,33 @@ class _RequiredSymbolsVisitor(libcst.CSTVisitor):
         if symbol not in self._outer_scope:
             return False
 
+        own_symbol = ImportSymbol(name=symbol, module=self._module_name)
+        import_symbols: set[ImportSymbol] = set()
         for assignment in self._outer_scope[symbol]:
             if not (node := getattr(assignment, "node")):
                 continue
 
             match node:
                 case libcst.Import() | libcst.ImportFrom():
-                    self._record_symbol_from_import_node(node, symbol)
+                    import_symbols |= self._symbols_from_import_node(node, symbol)
                 case _:
-                    self._import_symbols.add(ImportSymbol(name=symbol, module=self._module_name))
+                    import_symbols.add(own_symbol)
+
+        if len(import_symbols) > 1 and "." not in symbol:
+            # Which of the definitions applies (e.g., because of an optional
+            # import) is only known by the module in which it is defined.
+            import_symbols = {own_symbol}
+        self._import_symbols |= import_symbols
 
         return True
 
-    def _record_symbol_from_import_node(
+    def _symbols_from_import_node(
         self, node: libcst.Import | libcst.ImportFrom, symbol: str
-    ) -> None:
+    ) -> set[ImportSymbol]:
         names = node.names
+        import_symbols: set[ImportSymbol] = set()
         if isinstance(names, libcst.ImportStar):
-            return
+            return import_symbols
 
         for name in names:
             asname = _node_to_str(name.asname.name) if name.asname else None
@@ -294,7 +303,9 @@ class _RequiredSymbolsVisitor(libcst.CSTVisitor):
                     module = _resolve_relative_module_name(
                         self._module_name, relative_levels, import_module
                     )
-                self._import_symbols.add(ImportSymbol(name=target, asname=asname, module=module))
+                import_symbols.add(ImportSymbol(name=target, asname=asname, module=module))
+
+        return import_symbols
 
     def _symbol_in_function_scope(self, symbol: str) -> bool:
         symbol_parts = _importable_attribute_parts(libcst.parse_expression(symbol))
-- 
2.43.0


From 3b019c77e64bd00e1b51d6f166f480a92358a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:57 +0000
Subject: [PATCH 119/120] fix: leave uninitialized quantizers out of the
 quantizer state dict

---
 src/fastforward/nn/quantized_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index dc7935c..c099979 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -4,6 +4,7 @@
 import contextlib
 import dataclasses
 import inspect
+import itertools
 import logging
 import textwrap
 import warnings
@@ -87,6 +88,9 @@ def quantizer_state_dict(module: torch.nn.Module) -> dict[str, Any]:
     """
     state_dict: dict[str, torch.Tensor] = {}
     for name, quantizer in ff.nn.quantized_module.named_quantizers(module):
+        state = itertools.chain(quantizer.parameters(), quantizer.buffers())
+        if any(torch.nn.parameter.is_lazy(tensor) for tensor in state):
+            continue
         prefix = name + ("." if name else "")
         quantizer.state_dict(destination=state_dict, prefix=prefix)
     return state_dict
-- 
2.43.0


From 6cf1b2ccaeecbc973fe1b3f3221566ec7c2b9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 120/120] fix: use the integer type of quantized data in QDQ
 graphs that are not optimized

---
 .../export/stages/onnx/onnx_qdq_export_stages.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index ed3c053..ef12c3e 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -163,10 +163,15 @@ def _make_ff_quantize_by_tile_onnx(op: Any) -> Callable[..., Any]:
         del output_dtype
         axis = _ff_axis_from_tile_size(tile_size, data=input)
         zero_point = _ff_zero_point_from_offset(scale, offset, op)
-        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(num_bits))
+        quantized_dtype = _ff_quant_dtype_for_bitwidth(num_bits)
+        zero_point = op.Cast(zero_point, to=quantized_dtype)
         if axis is None:
-            return op.QuantizeLinear(input, scale, zero_point)
-        return op.QuantizeLinear(input, scale, zero_point, axis=axis)
+            quantized = op.QuantizeLinear(input, scale, zero_point)
+        else:
+            quantized = op.QuantizeLinear(input, scale, zero_point, axis=axis)
+        # Otherwise, the exporter uses the type of FF's quantized data, e.g. a float type.
+        quantized.dtype = onnxscript.ir.DataType(quantized_dtype)
+        return quantized
 
     return lowering
 
-- 
2.43.0

