From feca5eebf746d84124cf4a30597b656afee1f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 01/39] fix: ShufflingDataPipe, no assertion failure when there
 is no data

---
 returnn/torch/data/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/data/pipeline.py b/returnn/torch/data/pipeline.py
index fa6237d..a102a74 100644
--- a/returnn/torch/data/pipeline.py
+++ b/returnn/torch/data/pipeline.py
@@ -566,7 +566,8 @@ class ShufflingDataPipe(torch.utils.data.IterDataPipe):
                     has_ended = True
 
             if len(self._buffer) < self._buffer_size:
-                assert has_ended and not self._next_buffer
+                # If there was no data at all, then the loop above was never entered.
+                assert (has_ended or not self._buffer) and not self._next_buffer
                 break
 
             self._buffer.clear()
-- 
2.43.0


From 59b9c4fc47b858abb4e86c26ebb885a0b9860f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 02/39] fix: PostprocessingDataset LaplaceOrdering, no
 assertion failure when there is no data

---
 returnn/datasets/postprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..332bece 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -433,7 +433,8 @@ class LaplaceOrdering(Callable[[Iterator[TensorDict]], Iterator[TensorDict]]):
                     has_ended = True
 
             if len(seq_buffer) < self.num_seqs_per_bin:
-                assert has_ended and not next_seq_buffer
+                # If there was no data at all, then the loop above was never entered.
+                assert (has_ended or not seq_buffer) and not next_seq_buffer
                 break
 
             is_down_phase = not is_down_phase
-- 
2.43.0


From 3442eba430137c60cec8915ab737b4470ab0598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 03/39] fix: Dataset generate_batches, max_total_num_seqs was
 off by one

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..74d7d6a 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1302,7 +1302,7 @@ class Dataset:
         for seq_idx, t_start, t_end in self.iterate_seqs(recurrent_net=recurrent_net, used_data_keys=used_data_keys):
             if not self.sample(seq_idx):
                 continue
-            if total_num_seqs > max_total_num_seqs:
+            if seq_idx != last_seq_idx and total_num_seqs >= max_total_num_seqs:
                 break
             t_start -= self.ctx_left
             t_end += self.ctx_right
-- 
2.43.0


From 715c3479b7a00f614d149c8c8a6492617395a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:28 +0000
Subject: [PATCH 04/39] fix: rf.slice with PyTorch backend: handle step,
 negative start and negative end

The step was silently ignored, so the raw tensor did not match the out dim.
A negative end (or negative start without size) gave a wrong length for torch.narrow.
---
 returnn/torch/frontend/_backend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..0e17eff 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1173,9 +1173,19 @@ class TorchBackend(Backend[torch.Tensor]):
             if isinstance(end, Tensor):
                 assert end.dims == ()
                 end = end.raw_tensor
+            axis_size = axis.get_dim_value()
             if end is None:
-                end = axis.get_dim_value()
+                end = axis_size
+            elif isinstance(end, int) and end < 0:
+                end += axis_size
+            if isinstance(start, int) and start < 0:
+                start += axis_size
             out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if isinstance(step, Tensor):
+                assert step.dims == ()
+                step = step.raw_tensor
+            if step is not None:
+                out.raw_tensor = out.raw_tensor[(slice(None),) * axis_int + (slice(None, None, step),)]
         return out
 
     @staticmethod
-- 
2.43.0


From b04b69453286df8aadf7bd8dc6a84ebb4fa3ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 05/39] fix: rf.pad with PyTorch backend: non-scalar pad value
 with the given left/right padding

Always exactly one frame was added on the right side, independent of the padding,
so e.g. also rf.shift_right with a non-scalar pad value was wrong.
---
 returnn/torch/frontend/_backend.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 0e17eff..c76cca3 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -494,10 +494,18 @@ class TorchBackend(Backend[torch.Tensor]):
             assert isinstance(value, Tensor) and value.dims  # non-scalar
             assert all(dim in source.dims and dim not in axes for dim in value.dims)
             assert len(axes) == 1  # not implemented otherwise currently...
-            ext_dim = Dim(1, name="ext")
-            value_ext = rf.expand_dim(value, ext_dim)
-            out = TorchBackend.concat(
-                (source, axes[0]), (value_ext, ext_dim), allow_broadcast=True, out_dim=out_dims[0]
+            axis_int = source.dims.index(axes[0])
+            left_, right_ = raw_pad[-2:]
+            value_raw = value.copy_compatible_to_dims_raw(source.dims)
+            shape = list(source.raw_tensor.shape)
+            out = source.copy_template_replace_dim_tag(axis=axis_int, new_dim_tag=out_dims[0])
+            out.raw_tensor = torch.cat(
+                [
+                    value_raw.expand(shape[:axis_int] + [left_] + shape[axis_int + 1 :]),
+                    source.raw_tensor,
+                    value_raw.expand(shape[:axis_int] + [right_] + shape[axis_int + 1 :]),
+                ],
+                dim=axis_int,
             )
         if any(dim.need_masking() for dim in out_dims) and handle_dynamic_dims:
             if all(right == 0 for right in raw_pad[1::2]) and mode != "circular":
-- 
2.43.0


From 3a47415a9331c4e1f0e4da910f0a391c97340b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 06/39] fix: rf.pad with PyTorch backend: default value with
 dynamic dims

Without an explicit value (e.g. in rf.window), the masking for dynamic dims failed on value None.
---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index c76cca3..d79f052 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -450,6 +450,8 @@ class TorchBackend(Backend[torch.Tensor]):
     ) -> Tensor:
         """pad"""
         assert len(out_dims) == len(axes) == len(padding)
+        if value is None and mode == "constant":
+            value = 0
         remaining_dims = set(axes)
         raw_pad = []
         for dim in reversed(source.dims):
-- 
2.43.0


From ef78537ea0cd505a225c1ca0bdb05c1548da0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:28 +0000
Subject: [PATCH 07/39] fix: rf.scatter: padded frames had an influence when
 fill_value is given

The padded frames were masked with fill_value, so e.g. scatter_argmax (fill_value -1, min)
and scatter_logmeanexp (counts with fill_value 1) were wrong on padded sequences.
Mask with the neutral element of the reduction instead.
---
 returnn/frontend/array_.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 32f0a68..20021db 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -830,36 +830,39 @@ def scatter(
     if not out_dim:
         assert isinstance(indices, Tensor) and indices.sparse_dim
         out_dim = indices.sparse_dim
+    if mode == "sum":
+        neutral_value = 0
+    elif mode == "max":
+        neutral_value = numpy.iinfo(source.dtype).min if "int" in source.dtype else float("-inf")
+    elif mode == "min":
+        neutral_value = numpy.iinfo(source.dtype).max if "int" in source.dtype else float("inf")
+    else:
+        raise ValueError(f"scatter: invalid mode {mode!r}")
     if fill_value is None:
-        if mode == "sum":
-            fill_value = 0
-        elif mode == "max":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).min
-            else:
-                fill_value = float("-inf")
-        elif mode == "min":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).max
-            else:
-                fill_value = float("inf")
-        else:
-            raise ValueError(f"scatter: invalid mode {mode!r}")
+        fill_value = neutral_value
     indices_dim = indices_dim if isinstance(indices_dim, (list, tuple)) else [indices_dim]
     if any(dim.need_masking() for dim in indices_dim):
         if use_mask is None:
             use_mask = rf.use_mask_default(default=True, default_false_for_behavior_version_up_to=22)
         if use_mask:
-            source = source.copy_masked(fill_value, dims=indices_dim)
+            source = source.copy_masked(neutral_value, dims=indices_dim)
     else:
         use_mask = False
     # noinspection PyProtectedMember
     out = source._raw_backend.scatter(
         source, indices=indices, indices_dim=indices_dim, mode=mode, fill_value=fill_value, out_dim=out_dim
     )
+    if use_mask and fill_value != neutral_value:
+        # The padded frames must not have any influence, i.e. use fill_value where we only have padded frames.
+        ones = rf.ones(indices.dims, dtype=indices.dtype, device=source.device).copy_masked(0, dims=indices_dim)
+        # noinspection PyProtectedMember
+        counts = source._raw_backend.scatter(
+            ones, indices=indices, indices_dim=indices_dim, mode="sum", fill_value=0, out_dim=out_dim
+        )
+        out = rf.where(counts > 0, out, fill_value)
     if use_mask and mode != "sum":
         # Make sure we don't leave any infinities in the output.
-        out = out.copy_masked(0, dims=[out_dim])
+        out = out.copy_masked(0, dims=out_dim if isinstance(out_dim, (list, tuple)) else [out_dim])
     return out
 
 
-- 
2.43.0


From e8c06e28525c3d5f53619f3ec9bc0a51ef2c8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:00 +0000
Subject: [PATCH 08/39] fix: rf.combine without native module: wrong shortcuts
 for scalar operands

0 - x gave x, x ** -1 gave -x, x // 1 with float x gave x, logical_or with True gave the other operand.
---
 returnn/frontend/math_.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/returnn/frontend/math_.py b/returnn/frontend/math_.py
index 8292824..4f5ed7d 100644
--- a/returnn/frontend/math_.py
+++ b/returnn/frontend/math_.py
@@ -186,22 +186,20 @@ def combine(
     kind = _CombineMap.get(kind, kind)
 
     if isinstance(b, (int, float, bool, numpy.number)):
-        if b == 1 and kind in {"truediv", "floordiv", "pow", "mul"}:
+        if b == 1 and kind in {"truediv", "pow", "mul"}:
             return a
-        if b == -1 and kind in {"truediv", "floordiv", "pow", "mul"}:
+        if b == -1 and kind in {"truediv", "mul"}:
             return -a
         if b == 0 and kind in {"add", "sub"}:
             return a
-        if b and kind in {"logical_and", "logical_or"}:
+        if (b and kind == "logical_and") or (not b and kind == "logical_or"):
             return a
     if isinstance(a, (int, float, bool, numpy.number)):
-        if a == 1 and kind == "pow":
-            return a
         if a == 1 and kind == "mul":
             return b
-        if a == 0 and kind in {"add", "sub"}:
+        if a == 0 and kind == "add":
             return b
-        if a and kind in {"logical_and", "logical_or"}:
+        if (a and kind == "logical_and") or (not a and kind == "logical_or"):
             return b
     # Truediv checks for int/int division
     if kind in {"truediv", "/"}:
-- 
2.43.0


From 8acdf32dd20f66636c847b1fccb7d35be6bc1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:35 +0000
Subject: [PATCH 09/39] fix: rf.conv with PyTorch backend: padding=same with
 dilation

For odd filter sizes without striding, the padding did not take the dilation into account.
---
 returnn/torch/frontend/_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index d79f052..c916c7b 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1930,10 +1930,10 @@ class TorchBackend(Backend[torch.Tensor]):
             )
         use_striding = strides and (strides > 1 if isinstance(strides, int) else any(s > 1 for s in strides))
         if padding == "same" and not use_striding and all(d.dimension % 2 == 1 for d in filter_size):
-            if all(filter_size[0].dimension == d.dimension for d in filter_size):  # all same
-                padding = (filter_size[0].dimension - 1) // 2
-            else:
-                padding = tuple(d.dimension // 2 for d in filter_size)
+            dilation_rate_ = dilation_rate or 1
+            if isinstance(dilation_rate_, int):
+                dilation_rate_ = [dilation_rate_] * len(filter_size)
+            padding = tuple((d.dimension - 1) // 2 * dil for d, dil in zip(filter_size, dilation_rate_))
         if padding == "same" and (use_striding or torch.onnx.is_in_onnx_export()):
             # padding='same' is not supported for strided convolutions.
             # Moreover, padding specified as a string isn't supported for ONNX exporting as of 2023/05/19.
-- 
2.43.0


From b7d00fe2f8fa523272893d97de051ccdd4fc6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:35 +0000
Subject: [PATCH 10/39] fix: rf.pool with PyTorch backend: max-pooling with
 padding=same

With an odd amount of padding (e.g. even pool size and no striding), the output was too short,
and with dilation, the amount of padding was wrong.
---
 returnn/torch/frontend/_backend.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index c916c7b..5476c34 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -2057,13 +2057,25 @@ class TorchBackend(Backend[torch.Tensor]):
         assert isinstance(strides, (list, tuple)) and len(strides) == len(in_spatial_dims) == len(pool_size)
         if isinstance(padding, str) and padding.lower() == "same":
             # padding='same' is not quite the same as ceil_mode=True, so we explicitly pad here.
-            padding = []
+            dilation_rate_ = dilation_rate or 1
+            if isinstance(dilation_rate_, int):
+                dilation_rate_ = [dilation_rate_] * len(pool_size)
+            pads = []
             for i, s in enumerate(pool_size):
                 # See comment in conv.
                 # I'm a bit unsure here... https://github.com/pytorch/pytorch/issues/148123
-                pad = s - 1 - (src_raw.shape[2 + i] - 1) % strides[i]
-                padding.append(pad // 2)
-            ceil_mode = True
+                pads.append(max((s - 1) * dilation_rate_[i] - (src_raw.shape[2 + i] - 1) % strides[i], 0))
+            if mode == "max" and (any(pad % 2 for pad in pads) or any(d != 1 for d in dilation_rate_)):
+                # Not the same padding on both sides, or more than what the pool func supports.
+                pads_ = []
+                for pad in reversed(pads):
+                    pads_.extend([pad // 2, pad - pad // 2])
+                src_raw = torch.nn.functional.pad(src_raw, pads_, value=float("-inf"))
+                padding = 0
+                ceil_mode = False
+            else:
+                padding = [pad // 2 for pad in pads]
+                ceil_mode = True
         elif isinstance(padding, str) and padding.lower() == "valid":
             padding = 0
             ceil_mode = False
-- 
2.43.0


From b2af5c3339a5dd7fb0fd9cf961df9da64c72f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 11/39] fix: relative_positional_encoding, single step with
 per-sequence offset

The position then also has the batch dim, so the out shape check failed,
e.g. RelPosCausalSelfAttention single step after a prefix of different lengths.
---
 returnn/frontend/attention.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index b0d4991..24c9bad 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -942,7 +942,7 @@ def relative_positional_encoding(
         arg, feat_dim_ = rf.replace_dim(arg, in_dim=feat_dim_, out_dim=feat_dim)
         emb = rf.sin(arg)
         emb.verify_out_shape(
-            {out_spatial_dim, feat_dim} if out_spatial_dim != single_step_dim else {feat_dim},
+            {feat_dim} | indices.dims_set | ({out_spatial_dim} if out_spatial_dim != single_step_dim else set()),
             allow_missing_implicit_dims=True,
         )
         emb.feature_dim = feat_dim
-- 
2.43.0


From 61d7146ced62cb3b360f2b09a69ed5ededa445e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 12/39] fix: lru_cache, re-entrant finalizer on eviction

The dropped value was finalized while the links were not consistent yet.
---
 returnn/util/lru_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 1f45760..f0adf07 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -127,6 +127,7 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 # still adjusting the links.
                 root = oldroot[NEXT]
                 oldkey = root[KEY]
+                oldresult = root[RESULT]  # noqa. keep alive, see above
                 root[KEY] = root[RESULT] = None
                 # Now update the cache dictionary.
                 del cache[oldkey]
-- 
2.43.0


From 9d87109ac142505d0b1b821e40d864f478a459aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 13/39] fix: lru_cache, cache_set replaces an existing entry

---
 returnn/util/lru_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index f0adf07..4228e75 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -173,7 +173,9 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         nonlocal root, full
         if maxsize > 0:
             key = make_key(args, kwargs, typed)
-            _cache_insert(key, result)
+            with lock:
+                cache_pop(*args, fallback=None, **kwargs)  # replace any existing entry
+                _cache_insert(key, result)
 
     def cache_peek(*args, update_statistics: bool = True, fallback=None, **kwargs):
         """
-- 
2.43.0


From 5725090ca585c62c033352669d41109bad254158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 14/39] fix: rf Cache, get with static dim when the orig dim is
 gone

---
 returnn/frontend/_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index a6b0075..1447ea3 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -60,6 +60,8 @@ class Cache:
                 assert isinstance(key_item, DimWrapper)
                 dim_orig = key_item_orig.dim_ref()
                 dim = key_item.dim_ref()
+                if dim_orig is None:
+                    continue  # The orig dim is gone (we compared by dim value), so the value cannot refer to it.
                 assert isinstance(dim_orig, Dim) and isinstance(dim, Dim)
                 dim_map[dim_orig] = dim
 
-- 
2.43.0


From 5edd6220961db6840f272eb68e201c486851c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 15/39] fix: Dim math, floor division of a product with floor
 division

(2 * (a // 2)) // 2 became 2 * (a // 4).
---
 returnn/tensor/_dim_extra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..ead24d1 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2623,7 +2623,13 @@ class _OpMultTerm:
                     return
                 # Fallback with generic handling.
             op_kind = kind + "_" + ("right" if right else "left")
-            if kind.endswith("div") and term.derived_from_op and term.derived_from_op.kind == op_kind:
+            # With other factors, this would be wrong, e.g. (2 * (a // 2)) // 2 != 2 * (a // 4).
+            if (
+                kind.endswith("div")
+                and len(self.terms) == 1
+                and term.derived_from_op
+                and term.derived_from_op.kind == op_kind
+            ):
                 numerator = term.derived_from_op.inputs[0]
                 denominator = term.derived_from_op.inputs[1]
                 self.terms[idx] = _OpMultTerm.new_div_dim(numerator, denominator * other, kind=kind, right=right)
-- 
2.43.0


From 955b0479ea45627e4ac776147ed7b4e7363e894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 16/39] fix: Dim math, max size of a difference

max(a - b) is not max(a) - max(b), so the axis size could be too small.
---
 returnn/tensor/_dim_extra.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index ead24d1..bb9df8c 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1262,6 +1262,12 @@ class _DimMixin:
             else:
                 raise TypeError(f"complete_dyn_size: _relu: unexpected type {type(a)}")
 
+        def _is_negated(dim_: Dim) -> bool:
+            if dim_.dimension is not None:
+                return dim_.dimension < 0
+            op_ = dim_.derived_from_op
+            return bool(op_ and op_.kind == "mul" and any(_is_negated(d) for d in op_.inputs))
+
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
         inputs = list(op.inputs)
@@ -1285,6 +1291,8 @@ class _DimMixin:
             else:
                 self.batch = y.batch
         self.dyn_size_ext = y
+        if _is_negated(self) or any(d.dimension is None and _is_negated(d) for d in inputs):
+            y_max_value = None  # not monotone, e.g. max(a - b) != max(a) - max(b). calculated from the dyn size instead
         if not template_only and y_max_value is not None:
             assert y_max_value is not None and y_max_value.raw_tensor is not None
             self._dyn_size_max_value = y_max_value
-- 
2.43.0


From 422e10ab3b1dbce35447b00808dd672454b800a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 17/39] fix: softmax_cross_entropy_with_logits with PyTorch
 backend, order of dims

The inverse permutation was used.
---
 returnn/torch/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 5476c34..e1c530f 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -652,8 +652,7 @@ class TorchBackend(Backend[torch.Tensor]):
             logits_dim_order = targets.dims
 
         # We need same order of axes as in target.
-        logits_axes_permutation = [logits_dim_order.index(dim) for dim in logits.dims]
-        logits = logits.copy_transpose(logits_axes_permutation)
+        logits = logits.copy_transpose(logits_dim_order)
 
         raw_cross_entropy = torch.nn.functional.cross_entropy(
             input=logits.raw_tensor, target=targets.raw_tensor, reduction="none"
-- 
2.43.0


From 26d8869582a972ca0fa90ab62cd73cf01307e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 18/39] fix: raw_dict_split_batch with entries without batch
 dim

collate_batch adds num_seqs, epoch, complete_frac,
so forward_auto_split_batch_on_oom failed.
---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..ddedefd 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if v.ndim == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac, see collate_batch
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From 906829950bb8569c42af50403fcb2a9a2d06f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 19/39] fix: PyTorch updater, weight_decay_custom_include_check
 full_param_name

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..8e8f67a 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -537,7 +537,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From 97290578bf6594df4288e2259fa500327675cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:25 +0000
Subject: [PATCH 20/39] fix: PyTorch updater, learning_rate_multiplier was lost
 after the first step

---
 returnn/torch/updater.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 8e8f67a..d7d1394 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -106,6 +106,7 @@ class Updater:
         self.config = config
         self.learning_rate = float(initial_learning_rate)
         self._effective_learning_rate = self.learning_rate
+        self._learning_rate_multiplier = 1.0  # via optimizer opts
         self.network = network
         self._device = device
         # Just set the very first step as initial values here.
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._learning_rate_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -425,8 +426,8 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
-        opt_kwargs["lr"] = lr
+        self._learning_rate_multiplier = opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        opt_kwargs["lr"] = lr * self._learning_rate_multiplier
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
         optimizer = optim_class(params_or_param_groups, **opt_kwargs)
-- 
2.43.0


From cbf1749d6259432fc5a16cfb139231d277c14324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 21/39] fix: Dataset.iterate_seqs, key with a single frame
 ended the chunking after the first chunk

---
 returnn/datasets/basic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 74d7d6a..1be148e 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1226,7 +1226,13 @@ class Dataset:
                         chunk_end.value = None
                     yield s, chunk_start, chunk_end
                     t += chunk_step
-                    if any([length[key] - t[key] <= self.min_chunk_size[key] for key in length.keys()]):
+                    if any(
+                        [
+                            length[key] - t[key] <= self.min_chunk_size[key]
+                            for key in length.keys()
+                            if key not in keys_with_full_seqs
+                        ]
+                    ):
                         break
             s += 1
 
-- 
2.43.0


From 6c36f6321b77f21a49b4047cff7402d1e95c2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 22/39] fix: DistributeFilesDataset, sub dataset sharded a
 second time

The sub dataset inherits _num_shards/_shard_index of the parent, but the files are already sharded.
So every worker saw only a part of the sequences of its files.
---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..f02fb6c 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # We shard the files here, so the sub dataset must not shard its sequences again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From b171bc9b448cc9ba36149ef883d7e9b949649491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 23/39] fix: DistributeFilesDataset.finish_epoch, worker of the
 finished epoch never stopped

super().finish_epoch resets self.epoch.
---
 returnn/datasets/distrib_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index f02fb6c..2f8ed20 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -437,15 +437,16 @@ class DistributeFilesDataset(CachedDataset2):
 
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
-        super().finish_epoch(free_resources=free_resources)
+        epoch = self.epoch
+        super().finish_epoch(free_resources=free_resources)  # resets self.epoch
         if free_resources:
             for worker in self._workers.values():
                 worker.exit()
             self._workers.clear()
             self._files_order_cache.clear()
         else:
-            if self.epoch in self._workers:
-                worker = self._workers.pop(self.epoch)
+            if epoch in self._workers:
+                worker = self._workers.pop(epoch)
                 worker.exit()
 
     def get_data_keys(self) -> List[str]:
-- 
2.43.0


From de7c7084b1a434cbf9add684829c63fce4ffbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 24/39] fix: MultiProcDataset sharding_method dedicated,
 unbalanced shards and predefined orders

Sequences were lost or the workers failed when the shards do not have the same number of sequences,
a given seq_list/seq_order was loaded by every worker, and an unknown complete_frac failed.
---
 returnn/datasets/multi_proc.py | 60 ++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..d18fe4f 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,7 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Dict, Iterator, List, Tuple
 import sys
 import gc
 import multiprocessing as mp
@@ -76,6 +76,7 @@ class MultiProcDataset(CachedDataset2):
         self._seq_order_proc = None  # type: Optional[mp.Process]
         self._worker_procs = None  # type: Optional[List[mp.Process]]
         self._cur_max_complete_frac: Optional[float] = None
+        self._dedicated_seqs_iter: Optional[Iterator[Tuple[int, DatasetSeq]]] = None
 
         if _meta_info_cache:
             # This allows to skip the lazy init in self.initialize().
@@ -408,8 +409,18 @@ class MultiProcDataset(CachedDataset2):
         self._cur_max_complete_frac = 0.0
 
         if self._sharding_method == "dedicated":
-            for worker_conn in self._worker_parent_conns:
-                worker_conn.send(("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order}))
+            for i, worker_conn in enumerate(self._worker_parent_conns):
+                # The dataset sharding does not apply to a predefined order.
+                worker_conn.send(
+                    (
+                        "init_seq_order",
+                        {
+                            "epoch": epoch,
+                            "seq_list": seq_list[i :: self.num_workers] if seq_list is not None else None,
+                            "seq_order": seq_order[i :: self.num_workers] if seq_order is not None else None,
+                        },
+                    )
+                )
             num_child_seqs = []
             for worker_conn in self._worker_parent_conns:
                 msg, num_seqs = worker_conn.recv()
@@ -421,6 +432,7 @@ class MultiProcDataset(CachedDataset2):
                 self._num_seqs = sum(num_child_seqs, 0)
             else:
                 raise ValueError(f"heterogenous num_seqs in child datasets: {num_child_seqs}")
+            self._dedicated_seqs_iter = enumerate(self._iter_dedicated_seqs())
         elif self._sharding_method == "seq_order":
             self._seq_order_proc_parent_conn.send(
                 ("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order})
@@ -435,21 +447,43 @@ class MultiProcDataset(CachedDataset2):
 
         return True
 
-    def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
-        worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
+    @staticmethod
+    def _get_worker_seq(worker: mpConnection, seq_idx: int) -> Optional[DatasetSeq]:
+        worker.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = worker.recv()
         assert msg == "data_seq"
+        return data
+
+    def _iter_dedicated_seqs(self) -> Iterator[DatasetSeq]:
+        """round-robin over the workers which still have seqs. the shards might not have the same size"""
+        workers = list(self._worker_parent_conns)
+        worker_seq_idx = 0
+        while workers:
+            for worker in list(workers):
+                data = self._get_worker_seq(worker, worker_seq_idx)
+                if data is None:
+                    workers.remove(worker)
+                else:
+                    yield data
+            worker_seq_idx += 1
+
+    def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
+        if self._sharding_method == "dedicated":
+            # seq_idx is monotonic.
+            data = next((data_ for i, data_ in self._dedicated_seqs_iter if i == seq_idx), None)
+        else:
+            worker = self._worker_parent_conns[seq_idx % self.num_workers]
+            data = self._get_worker_seq(worker, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
-        # The complete_frac values from the subprocesses are not necessarily monotonic
-        # due to rounding errors in the sharding and such.
-        # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        if data.complete_frac is not None:
+            # The complete_frac values from the subprocesses are not necessarily monotonic
+            # due to rounding errors in the sharding and such.
+            # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
-- 
2.43.0


From a5d1b78d3de8a16d32462e45860f61a7112983b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 25/39] fix: PostprocessingDataset, complete_frac not available

---
 returnn/datasets/postprocessing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index 332bece..c5aa23a 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -270,9 +270,9 @@ class PostprocessingDataset(CachedDataset2):
             assert loaded_seq_idx <= seq_idx, "_collect_single_seq must be done monotonically"
             if loaded_seq_idx != seq_idx:
                 continue
-            complete_frac = (
-                float(tensor_dict.data["complete_frac"].raw_tensor) if "complete_frac" in tensor_dict.data else None
-            )
+            complete_frac = None
+            if "complete_frac" in tensor_dict.data and tensor_dict.data["complete_frac"].raw_tensor is not None:
+                complete_frac = float(tensor_dict.data["complete_frac"].raw_tensor)
             seq_tag = str(tensor_dict.data["seq_tag"].raw_tensor) if "seq_tag" in tensor_dict.data else f"seq-{seq_idx}"
             features = {k: t.raw_tensor for k, t in tensor_dict.data.items() if k not in ["complete_frac", "seq_tag"]}
             seq = DatasetSeq(complete_frac=complete_frac, features=features, seq_idx=seq_idx, seq_tag=seq_tag)
@@ -290,7 +290,9 @@ class PostprocessingDataset(CachedDataset2):
                     f"postprocessing mapper function must produce a {TensorDict.__name__}, "
                     f"but got a {type(t_dict).__name__}"
                 )
-                if "complete_frac" in t_dict.data:  # sanity check complete_frac
+                # complete_frac might be not available, i.e. has no value, e.g. if num_seqs is not known.
+                if "complete_frac" in t_dict.data and t_dict.data["complete_frac"].raw_tensor is not None:
+                    # sanity check complete_frac
                     complete_frac = float(t_dict.data["complete_frac"].raw_tensor)
                     assert 0.0 <= complete_frac <= 1.0, f"complete_frac must be in [0, 1], but got {complete_frac}"
                     assert complete_frac >= last_complete_frac, (
-- 
2.43.0


From ea209086af961f6285f28362273f49617730da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 26/39] fix: MetaDataset.init_seq_order, predefined order kept
 for the next call with the same epoch

---
 returnn/datasets/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..b0f3074 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -291,6 +291,7 @@ class MetaDataset(CachedDataset2):
 
         self.orig_seq_order_is_initialized = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
+        self._seq_list_ordered_is_predefined = False  # via seq_list or seq_order
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
         """
@@ -395,6 +396,7 @@ class MetaDataset(CachedDataset2):
             self.epoch is None
             or self.epoch != epoch
             or self.seq_list_ordered is None
+            or self._seq_list_ordered_is_predefined  # not the order of the epoch
             or seq_list is not None
             or seq_order is not None
             or self.expected_load_seq_start > 0
@@ -438,6 +440,7 @@ class MetaDataset(CachedDataset2):
             seq_index = self.get_seq_order_for_epoch(epoch, self.num_total_seqs, get_seq_len)
         self._num_seqs = len(seq_index)
         self.seq_list_ordered = {key: [ls[s] for s in seq_index] for (key, ls) in self.seq_list_original.items()}
+        self._seq_list_ordered_is_predefined = seq_list is not None or seq_order is not None
 
         for dataset_key, dataset in self.datasets.items():
             assert isinstance(dataset, Dataset)
-- 
2.43.0


From 4a55cf3a9ab74993ed2651f6a6f4ee723d089d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:20 +0000
Subject: [PATCH 27/39] fix: top_k with PyTorch backend over several axes, when
 one is dynamic

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index e1c530f..4623309 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1584,8 +1584,8 @@ class TorchBackend(Backend[torch.Tensor]):
             indices_out = []
             for i, a in reversed(list(enumerate(axis))):
                 assert isinstance(a, Dim)
-                indices_out_raw = indices_raw % a.dimension
-                indices_raw = indices_raw // a.dimension
+                indices_out_raw = indices_raw % a.get_dim_value()
+                indices_raw = indices_raw // a.get_dim_value()
                 indices = values.copy_template(name=f"top_k_indices_{a.name or i}")
                 indices.dtype = TorchBackend.get_dtype_name_raw(indices_out_raw)
                 indices.sparse_dim = a
-- 
2.43.0


From ff2e0152b0ad496dd8e0bf185ec4317d5ec9ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:20 +0000
Subject: [PATCH 28/39] fix: reduce_max, reduce_min with PyTorch backend over
 several axes

---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 4623309..d8ab8f9 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1524,6 +1524,8 @@ class TorchBackend(Backend[torch.Tensor]):
                 # result is a tuple (values, indices). https://pytorch.org/docs/stable/generated/torch.max.html
                 raw_result, _ = raw_result
         else:
+            if mode in ["max", "min"]:
+                func = getattr(torch, "a" + mode)  # torch.max/torch.min support only a single dim
             raw_result = func(source.raw_tensor, dim=raw_dims)
         if correction_factor is not None:
             raw_result *= (
-- 
2.43.0


From 8176a67320f4c3837eb383c09c76e794aa43a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 29/39] fix: FileCache: successful retry after ENOSPC is no
 error, no incomplete temp file left

---
 returnn/util/file_cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..d4bc72b 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
@@ -354,7 +355,13 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                except Exception:
+                    # Do not keep the incomplete temp file, such that we can retry directly.
+                    if os.path.exists(dst_tmp_filename):
+                        os.remove(dst_tmp_filename)
+                    raise
                 os.rename(dst_tmp_filename, dst_filename)
 
     @staticmethod
-- 
2.43.0


From e8653ed3124a82df7a741aeb8e795a8487392166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 30/39] fix: FileCache touch thread: ignore missing files which
 are not used anymore

---
 returnn/util/file_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index d4bc72b..933340f 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -486,6 +486,8 @@ class _TouchFilesThread(Thread):
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
+                    if isinstance(exc, FileNotFoundError) and filename not in self.files:
+                        continue  # not used anymore in the meantime, e.g. lock file
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
                     raise
             if self.stop.wait(self.interval):
-- 
2.43.0


From c2058351eeb133633718c31de851f049194e43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 31/39] fix: LearnedRelativePositionalEncoding.full_matrix
 without query_offset

---
 returnn/frontend/attention.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index 24c9bad..769c575 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -840,7 +840,9 @@ class LearnedRelativePositionalEncoding(rf.Module):
             indices = kv_pos_vec - query_offset  # [q_len,kv_len]
         else:
             q_pos_vec = rf.range_over_dim(query_spatial_dim)  # [q_len]
-            indices = rf.combine_bc(kv_pos_vec, "-", q_pos_vec + query_offset)  # [q_len,kv_len]
+            if query_offset is not None:
+                q_pos_vec = q_pos_vec + query_offset
+            indices = rf.combine_bc(kv_pos_vec, "-", q_pos_vec)  # [q_len,kv_len]
         indices = rf.clip_by_value(indices, -self.clipping, 0 if self.causal else self.clipping)
         indices = indices + self.clipping
         encoding = rf.gather(self.pos_emb, indices=indices, axis=self.clipped_spatial_dim)  # [q_len,kv_len,n_out]
-- 
2.43.0


From b678bd2d4246479e01801feec979a173e2287887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 32/39] fix: SimpleHDFWriter: extend existing file with several
 extra keys

---
 returnn/datasets/hdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..2ecd093 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            # The data_key_idx in seq_lengths depends on all the existing data keys.
+            for data_key, data in self._file["targets/data"].items():
+                self._datasets[data_key] = data
+                self._extra_num_time_steps[data_key] = data.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
-- 
2.43.0


From facf1eb14d83086ed58a46ee2ff98108ef49f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 33/39] fix: HDFDataset.get_data without cache: use the
 sequence order

---
 returnn/datasets/hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 2ecd093..2867c16 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -298,7 +298,7 @@ class HDFDataset(CachedDataset):
             return super(HDFDataset, self).get_data(seq_idx, key)
 
         # Otherwise, directly read it from file now.
-        real_seq_idx = self._seq_index[seq_idx]
+        real_seq_idx = self._seq_index[self._index_map[seq_idx]]
         return self._get_data_by_real_seq_idx(real_seq_idx, key)
 
     def get_data_by_seq_tag(self, seq_tag, key):
-- 
2.43.0


From 9353ff96654b76280cdd17fad075b69e25a3e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 34/39] fix: HDFDatasetWriter: order of target lengths as in
 HDFDataset

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 2867c16..441e5a8 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1535,7 +1535,8 @@ class HDFDatasetWriter:
         hdf_dataset.create_dataset(attr_seqLengths, shape=(num_seqs, len(data_keys)), dtype="int32")
         for i, seq_len in enumerate(seq_lens):
             data_len = [seq_len[data_input_key]] if data_input_key else []
-            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys)]
+            # Same order as in HDFDataset, i.e. sorted by the key in the HDF.
+            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys, key=hdf_data_key_map.get)]
             hdf_dataset[attr_seqLengths][i] = data_len + targets_lens
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
-- 
2.43.0


From 15e48107697969d8c1d7a8c0e5f7ae7bba17d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 35/39] fix: PyTorch engine: use DistributedDataParallel
 wrapper only for training

---
 returnn/torch/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index b0b1940..3c0181b 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -824,7 +824,9 @@ class Engine(EngineBase):
         :param extern_data: model inputs for the step
         :return: Nothing, all outputs are written to the run context (:func:`rf.get_run_ctx`).
         """
-        if self._ddp_pt_model is not None and not _inside_wrapped:
+        # Only use the DistributedDataParallel wrapper for training:
+        # Its forward might run collective ops (e.g. to sync the buffers), but the evaluation is done only on rank 0.
+        if self._ddp_pt_model is not None and train_flag and not _inside_wrapped:
             self._ddp_pt_model(extern_data=extern_data, train_flag=train_flag, train_func=train_func)
             return
 
-- 
2.43.0


From d10cb1658f981cd3fb7eb1b39981465543db3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 36/39] fix: torch_distributed: option backend in sub processes

---
 returnn/torch/distributed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/torch/distributed.py b/returnn/torch/distributed.py
index b827021..02d7801 100644
--- a/returnn/torch/distributed.py
+++ b/returnn/torch/distributed.py
@@ -78,6 +78,7 @@ class DistributedContext:
         # This function here is called at the end in __init__,
         # and not all opts are used yet, so read them now,
         # such that the check in the end works.
+        self._opts.get("backend")  # not used yet if we have prev_init_info
         if self._reduce_type == "grad":
             self._opts.get("class")
             self._opts.get("options")
-- 
2.43.0


From 00858d26c8c1f1872c19ff9cfb74405132966fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 37/39] fix: rf.PiecewiseLinear with a single point

---
 returnn/frontend/piecewise_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/frontend/piecewise_linear.py b/returnn/frontend/piecewise_linear.py
index ead0ddc..1966b62 100644
--- a/returnn/frontend/piecewise_linear.py
+++ b/returnn/frontend/piecewise_linear.py
@@ -44,6 +44,9 @@ class PiecewiseLinear(rf.Module):
         :param x: (x_dims...) -> value in keys
         :return: y: (x_dims...,y_dims...) -> value in values
         """
+        if self.points_dim.dimension == 1:  # constant. the interpolation below would divide by zero
+            index = rf.zeros(x.dims, dtype="int32", sparse_dim=self.points_dim, device=x.device)
+            return rf.gather(self._values, indices=index)
         index = rf.search_sorted(self._keys, x, axis=self.points_dim)
         index = rf.clip_by_value(index, 1, self.points_dim.dimension - 1)
         x_start = rf.gather(self._keys, indices=index - 1)
-- 
2.43.0


From 46a21d5a0321008780df3c87e7cf782b58bc793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 38/39] fix: rf.audio.specaugment with
 global_train_step_dependent=False

---
 returnn/frontend/audio/specaugment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/audio/specaugment.py b/returnn/frontend/audio/specaugment.py
index e66f217..ab401b9 100644
--- a/returnn/frontend/audio/specaugment.py
+++ b/returnn/frontend/audio/specaugment.py
@@ -49,7 +49,7 @@ def specaugment(
                 x_masked,
                 mask_axis=spatial_dim,
                 broadcast_axis=feature_dim,
-                min_num=rf.minimum(step1 + step2, spatial_len),
+                min_num=rf.minimum(spatial_len, step1 + step2),
                 max_num=rf.minimum(
                     rf.maximum(spatial_len // num_spatial_mask_factor, 2) * (step0 + step1 + step2 * 2), spatial_len
                 ),
-- 
2.43.0


From a2d9c3832d9a2374b765d77224da6ee906d4f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:40 +0000
Subject: [PATCH 39/39] fix: preload_from_files with init_for_train=always:
 model with buffers

convert_parameter_to_buffer raised an exception for buffers
(e.g. running statistics of batch norm) which are in the preloaded checkpoint.
---
 returnn/torch/util/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/util/module.py b/returnn/torch/util/module.py
index 6f9b472..9148992 100644
--- a/returnn/torch/util/module.py
+++ b/returnn/torch/util/module.py
@@ -36,6 +36,10 @@ def convert_parameter_to_buffer(module: torch.nn.Module, parameter_name: str, *,
         module = module.get_submodule(module_path)
 
     parameter = getattr(module, parameter_name)
+    if parameter_name in module._buffers:
+        # E.g. running statistics. This is a buffer already, but maybe with other persistent flag.
+        module.register_buffer(parameter_name, parameter, persistent=persistent)
+        return
     if not isinstance(parameter, torch.nn.Parameter):
         raise ValueError(f"{parameter_name} is not a torch.nn.Parameter, got type {type(parameter).__name__}")
     delattr(module, parameter_name)
-- 
2.43.0

