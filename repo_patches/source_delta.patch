From 3af77b63929c4a3e011fb11f069bc4f8b4478b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 01/37] fix: absorbing an overview must not modify the meta of
 the original nodes

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..2a83f4f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2318,6 +2318,9 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                # copy.copy is shallow, do not share meta with the originals
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From f286ffe43a885e703aa5f7cfbe122dced8555073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 02/37] fix: absorbing an overview below an empty crop raised a
 KeyError

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2a83f4f..ed939f0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2339,6 +2339,9 @@ class DelayedWarp(DelayedImage):
                     print('Tail')
                     tail.print_graph()
                 modified_tail = tail._opt_warp_after_crop()
+                if modified_tail is tail:
+                    # Empty crops cannot be swapped with the overview warp
+                    return self
                 if DEBUG:
                     print('Modified Tail')
                     modified_tail.print_graph()
-- 
2.43.0


From 05d715e5911d51bd6bcbab28116c7b361ed3462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 03/37] fix: swapping an overview and a warp must keep the
 output size and warp settings

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ed939f0..20e7893 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3351,7 +3351,8 @@ class DelayedOverview(DelayedImage):
         new_outer = C
         new_inner_overview = outer_overview
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        warp_meta = ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        new = new.warp(new_outer, dsize=self.dsize, **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From 702625b10bd71fa162cac92def66f4dcd4800dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 04/37] fix: swapping an overview and a crop must keep the
 output size

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 20e7893..13d9348 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3287,7 +3287,7 @@ class DelayedOverview(DelayedImage):
 
         if not np.all(np.isclose(np.eye(3), new_outer_warp)):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.dsize)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From 211106ab5b404c829954c3940b42ec2504a9b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 05/37] fix: optimizing a warp must keep its requested backend

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 13d9348..abc8c47 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From d934b72195c51623a1b95ac0780c6a0de5ddfa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 06/37] fix: simulated overviews must have the declared size

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index abc8c47..6ff3341 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3160,7 +3160,7 @@ class DelayedOverview(DelayedImage):
         sub_final = np.asarray(sub_final)
         final = kwimage.imresize(
             sub_final,
-            scale=1 / 2**overview,
+            dsize=self.meta['dsize'],
             interpolation='nearest',
             # antialias=True
         )
-- 
2.43.0


From 1ef68430f4fa7e21f357b8781dcc1dbdc7734af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 07/37] fix: optimizing nan placeholders with unnamed channels
 must keep their number of channels

---
 delayed_image/delayed_leafs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..6d335ab 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -411,9 +411,10 @@ class DelayedNans(DelayedImageLeaf):
         """
         assert space_slice is not None
         if chan_idxs is None:
-            channels = self.channels
+            channels = self._channels_or_num()
+        elif self.channels is None:
+            channels = len(chan_idxs)
         else:
-            assert self.channels is not None
             channels = self.channels[chan_idxs]
         dsize = self.dsize
         assert dsize is not None
@@ -437,11 +438,16 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        channels = self._channels_or_num()
+        new = self.__class__(dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
 
+    def _channels_or_num(self):
+        # Unnamed channels are still counted
+        return self.num_channels if self.channels is None else self.channels
+
 
 class DelayedNodata(DelayedNans):
     """
-- 
2.43.0


From 2f04477477547d36149112a040d3c7aa771baee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 08/37] fix: number of remaining overviews when it is unknown
 or exhausted in the source

---
 delayed_image/delayed_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6ff3341..6affd74 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3127,13 +3127,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
             int
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_overviews = self.subdata.num_overviews
+        if num_overviews is None:
+            return None
+        num_remain = max(num_overviews - self.meta['overview'], 0)
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 3c1d7304a307934ac1d73281b9e5e511a43ed73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 09/37] fix: integer channel selection on a concat does not
 require channel names

---
 delayed_image/delayed_nodes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 6affd74..bc84665 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -917,8 +917,6 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
             top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
-- 
2.43.0


From 4542f8f8ba0cfe76d12129dbf0123e668f9d71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 10/37] fix: integer channel selection on a concat with the
 error policy always failed

---
 delayed_image/delayed_nodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bc84665..57de173 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -939,10 +939,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
-- 
2.43.0


From 58aecc13015ca6f13025b8f19a21eaa863cf7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 11/37] fix: negative channel indexes on a concat selected the
 wrong channel

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 57de173..3d6505b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -979,6 +979,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
                     inner = curr.stop
             else:
                 # Requested channel exists in our data stack
+                if idx < 0:
+                    # Negative indexes count from the end of all channels
+                    idx = idx + len(subindexer)
                 outer, inner = subindexer.unravel(idx)
                 comp = self.parts[outer]
 
-- 
2.43.0


From aed8bd8c31f1e63ee3883054288def45cfd5cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 12/37] fix: swapping a crop and a warp lost the offset for
 regions outside of the source

---
 delayed_image/delayed_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3d6505b..4fb740d 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3045,6 +3045,14 @@ class DelayedCrop(DelayedImage):
         )
 
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
+        # The crop is clipped if the region is outside of the source image
+        clip_y, clip_x = new_inner.meta['space_slice']
+        shift_x = clip_x.start - inner_slice[1].start
+        shift_y = clip_y.start - inner_slice[0].start
+        if shift_x or shift_y:
+            outer_transform = kwimage.Affine.coerce(
+                outer_transform
+            ) @ kwimage.Affine.translate((shift_x, shift_y))
         new_outer = new_inner.warp(outer_transform, **warp_meta)
         if TRACE_OPTIMIZE:
             new_outer._opt_logs.extend(self.subdata.subdata._opt_logs)
-- 
2.43.0


From 0cbda137d33eba7e04202bad8cada3deb5bcaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 13/37] fix: channel selection from grayscale data without a
 channel axis

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4fb740d..60a0096 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2733,6 +2733,9 @@ class DelayedCrop(DelayedImage):
             full_slice = space_slice
         else:
             full_slice = space_slice + (chan_idxs,)
+            if getattr(sub_final, 'ndim', 3) == 2:
+                # Grayscale data may not have an explicit channel axis
+                sub_final = sub_final[:, :, None]
         # final = sub_final[space_slice]
         final = sub_final[full_slice]
         final = kwarray.atleast_nd(final, 3)
-- 
2.43.0


From df951a408b44b2c28aaa3b062404e31f6a7d2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 14/37] fix: late fusing a channel spec with a string spec
 raised a TypeError

---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index fa2b8dc..d8c0484 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,7 +277,7 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = str
+            other_spec = other
         else:
             other_spec = other.spec
         if not self.spec:
-- 
2.43.0


From f5da694e16e3677804c70d56a7a07893ba22959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 15/37] fix: component indices of a fused spec ignored the size
 of slice codes

---
 delayed_image/channel_spec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d8c0484..d289fac 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -881,8 +881,7 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part in self.parsed:
-            size = self._size_lut.get(part, 1)
+        for part, size in zip(self.parsed, self.sizes()):
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From 33656af4a6745ab73b9627bc20db727191b7d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 16/37] fix: the mode=0 channel encoding failed for specs with
 multi channel codes

---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d289fac..6ef88a2 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1573,7 +1573,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts], axis=axis
+                    [components[k] for k in parts.parsed], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 9c23ff74e85fded69404d0e3ab8376647fa90fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 17/37] fix: lazy file windows with negative starts, reversed
 or out of range bounds

---
 delayed_image/lazy_loaders.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..78fa1a7 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1086,14 +1086,13 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
-        stop = D if part.stop is None else min(D, part.stop)
-        if stop < 0:
-            stop = D + stop
         assert part.step is None
-        part = slice(start, stop)
+        start, stop, _ = part.indices(D)
+        part = slice(start, max(start, stop))
         return part
     elif isinstance(part, int):
+        if part < 0:
+            part = D + part
         part = slice(part, part + 1)
     elif isinstance(part, list):
         part = part
-- 
2.43.0


From 0380531948978b5cf7c00f103a1ad0f657353ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 18/37] fix: optimizing a zero overview of a concat raised an
 AttributeError

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 60a0096..83eb645 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3209,7 +3209,7 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From e4431c0424ebd5d2f658b285efd7ada2fa69e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 19/37] fix: accept the empty channel groups that concise
 sensor/channel specs write

---
 delayed_image/sensorchan_spec.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 2ced0f8..fde0792 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -60,7 +60,10 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     fused : chan_code ("|" chan_code)*
 
     // Channels can be specified in a sequence but must contain parens
-    fused_seq : "(" fused ("," fused)* ")"
+    // (an item can be empty to indicate no channels)
+    fused_seq : "(" fused_item ("," fused_item)* ")"
+    ?fused_item : fused | fused_empty
+    fused_empty :
 
     // Sensors can be specified in a sequence but must contain parens
     sensor_seq : "(" IDEN ("," IDEN)* "):"
@@ -721,6 +724,9 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
             ret = ret.concise()
         return ret
 
+    def fused_empty(self, items):
+        return FusedChanNode([])
+
     def channel_rhs(self, items):
         flat = []
         for item in items:
-- 
2.43.0


From 4d32de99062e37ce5f7576b2f0518aa9740c14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 20/37] fix: nearest warps with regions outside of the source
 raised an IndexError

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 83eb645..7b86e6a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1857,6 +1857,9 @@ class DelayedWarp(DelayedImage):
                 valid_x = (xi >= 0) & (xi < in_w)
                 valid_y = (yi >= 0) & (yi < in_h)
                 valid = valid_y[:, None] & valid_x[None, :]
+                # The invalid samples are masked, but must be in bounds
+                xi = xi.clip(0, max(in_w - 1, 0))
+                yi = yi.clip(0, max(in_h - 1, 0))
 
                 fill = (
                     border_value[0]
-- 
2.43.0


From 6a316af764155afef09f17aea023d72b86a153d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 21/37] fix: an ellipsis that expands to no dimension raised a
 TypeError in lazy files

---
 delayed_image/lazy_loaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 78fa1a7..c4404cd 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1008,7 +1008,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
             # Expand the ellipsis
             ell_idx = index.index(Ellipsis)
             n = 1 + TOTAL_DIMS - len(index)
-            if n > 0:
+            if n >= 0:
                 index = (
                     index[:ell_idx]
                     + ([slice(None, None)] * n)
-- 
2.43.0


From 2cc77952ae27b9d8bd59139ab67ed72f9dd1bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 22/37] fix: the compatible lazy reader raised an IndexError
 for empty band selections

---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index c4404cd..3fc3176 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -771,6 +771,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return image
 
     def _compat_gdal_read(self, ds, band_indices, gdalkw, nodata_method):
+        if not len(band_indices):
+            shape = (gdalkw['win_ysize'], gdalkw['win_xsize'], 0)
+            return np.empty(shape, dtype=self.dtype)
         selected_bands = tuple(self._read_bands[idx] for idx in band_indices)
         if nodata_method is None:
             selected_nodata_values = None
-- 
2.43.0


From 1a575872eb012b3a4d68bd37b943780907396ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 23/37] Revert "fix: accept the empty channel groups that
 concise sensor/channel specs write"

This reverts commit e4431c0424ebd5d2f658b285efd7ada2fa69e49f.
---
 delayed_image/sensorchan_spec.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index fde0792..2ced0f8 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -60,10 +60,7 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     fused : chan_code ("|" chan_code)*
 
     // Channels can be specified in a sequence but must contain parens
-    // (an item can be empty to indicate no channels)
-    fused_seq : "(" fused_item ("," fused_item)* ")"
-    ?fused_item : fused | fused_empty
-    fused_empty :
+    fused_seq : "(" fused ("," fused)* ")"
 
     // Sensors can be specified in a sequence but must contain parens
     sensor_seq : "(" IDEN ("," IDEN)* "):"
@@ -724,9 +721,6 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
             ret = ret.concise()
         return ret
 
-    def fused_empty(self, items):
-        return FusedChanNode([])
-
     def channel_rhs(self, items):
         flat = []
         for item in items:
-- 
2.43.0


From 5087db02396bf19553a9f2dea2e71b6f599f6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 24/37] Revert "fix: the mode=0 channel encoding failed for
 specs with multi channel codes"

This reverts commit 33656af4a6745ab73b9627bc20db727191b7d806.
---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 6ef88a2..d289fac 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1573,7 +1573,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts.parsed], axis=axis
+                    [components[k] for k in parts], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 80f6848255735d103458d242505c55c5ca52131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 25/37] Revert "fix: component indices of a fused spec ignored
 the size of slice codes"

This reverts commit f5da694e16e3677804c70d56a7a07893ba22959e.
---
 delayed_image/channel_spec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d289fac..d8c0484 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -881,7 +881,8 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part, size in zip(self.parsed, self.sizes()):
+        for part in self.parsed:
+            size = self._size_lut.get(part, 1)
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From e9f32fc6ebfe60b79cbb1afe5dcea109b5b3dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 26/37] Revert "fix: late fusing a channel spec with a string
 spec raised a TypeError"

This reverts commit df951a408b44b2c28aaa3b062404e31f6a7d2e32.
---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d8c0484..fa2b8dc 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,7 +277,7 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = other
+            other_spec = str
         else:
             other_spec = other.spec
         if not self.spec:
-- 
2.43.0


From 78e532b308847b2c0f7e0295337c2a9efaa13006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 27/37] fix: nearest warp of an empty source region raised an
 error

A nearest neighbour warp whose source crop is empty (its output lies outside of
the source image) tried to resize an empty array.
---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7b86e6a..e9116ee 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1944,6 +1944,7 @@ class DelayedWarp(DelayedImage):
                 and abs(float(ty)) < 1e-9
                 and sx > 0
                 and sy > 0
+                and prewarp.size > 0
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
@@ -2009,7 +2010,7 @@ class DelayedWarp(DelayedImage):
 
             # Last-resort rescue for pathological runtime stacks where both
             # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
+            if prewarp.size > 0 and max(score1[0], score2[0]) < 0.05:
                 final = kwimage.imresize(
                     prewarp, dsize=dsize, interpolation='nearest'
                 )
-- 
2.43.0


From 1b325f2fcad8c7360ddc55bd3350eea275ac432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 28/37] fix: a crop that was fused above a placeholder took its
 channels from the wrong crop

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e9116ee..5df3ab2 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2783,7 +2783,7 @@ class DelayedCrop(DelayedImage):
 
         if hasattr(new.subdata, '_optimized_crop'):
             # The subdata knows how to optimize itself wrt this node
-            crop_kwargs = ub.dict_isect(self.meta, {'space_slice', 'chan_idxs'})
+            crop_kwargs = ub.dict_isect(new.meta, {'space_slice', 'chan_idxs'})
             new = new.subdata._optimized_crop(**crop_kwargs).optimize(ctx)
         if isinstance2(new.subdata, DelayedWarp):
             # Nearest-neighbor reorderings are sensitive to pixel-center /
-- 
2.43.0


From 01a2fcc56a9641ac9427f96645cc28f6cab94694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 29/37] fix: rasterio and spectral readers failed for an
 ellipsis and for negative or empty band lists

---
 delayed_image/lazy_loaders.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 3fc3176..dde2481 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -324,13 +324,7 @@ class LazySpectralFrameFile(ub.NiceRepr):
         ds = self._ds
 
         height, width, C = ds.shape
-        if not ub.iterable(index):
-            index = [index]
-
-        index = list(index)
-        if len(index) < 3:
-            n = 3 - len(index)
-            index = index + [None] * n
+        index = _expand_index(index)
 
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
@@ -439,13 +433,7 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
         height = ds.height
         C = ds.count
 
-        if not ub.iterable(index):
-            index = [index]
-
-        index = list(index)
-        if len(index) < 3:
-            n = 3 - len(index)
-            index = index + [None] * n
+        index = _expand_index(index)
 
         ypart = _rectify_slice_dim(index[0], height)
         xpart = _rectify_slice_dim(index[1], width)
@@ -466,6 +454,10 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
         xstart, xstop = map(int, [xpart.start, xpart.stop])
 
         indexes = [b + 1 for b in band_indices]
+        if not indexes:
+            # rasterio cannot read an empty selection of bands
+            shape = (ystop - ystart, xstop - xstart, 0)
+            return np.empty(shape, dtype=self.dtype)
         img_part = ds.read(
             indexes=indexes, window=((ystart, ystop), (xstart, xstop))
         )
@@ -1098,12 +1090,23 @@ def _rectify_slice_dim(part, D):
             part = D + part
         part = slice(part, part + 1)
     elif isinstance(part, list):
-        part = part
+        part = [p + D if p < 0 else p for p in part]
     else:
         raise TypeError(part)
     return part
 
 
+def _expand_index(index, ndim=3):
+    """
+    Expand an ellipsis and missing trailing dimensions of an index to one part
+    per dimension.
+    """
+    index = list(index) if ub.iterable(index) else [index]
+    pos = next((i for i, p in enumerate(index) if p is Ellipsis), len(index))
+    n = ndim - sum(p is not Ellipsis for p in index)
+    return index[:pos] + [None] * n + index[pos + 1 :]
+
+
 def _validate_nonzero_data(file):
     """
     Test to see if the image is all black.
-- 
2.43.0


From d3320eaec5d92ecc165af6564c71f37063128fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 30/37] fix: the fast lazy read returned full resolution pixels
 for overviews without a dataset

---
 delayed_image/lazy_loaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index dde2481..ede1884 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -648,7 +648,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
         overview_band0 = default_band0.GetOverview(overview - 1)
         overview_ds = overview_band0.GetDataset()
         if overview_ds is None:
-            return ds
+            # Some drivers (e.g. HFA) only expose overviews through the bands,
+            # the caller falls back to reading those.
+            raise NotImplementedError('the overview has no dataset')
         return overview_ds
 
     @ub.memoize_property
-- 
2.43.0


From 0e3d50cc9590d70a3024b4b821337e11b17b400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 31/37] fix: labels of arrays with range or alias channel codes
 converted to xarray

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5df3ab2..1b507cd 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1649,7 +1649,7 @@ class DelayedAsXarray(DelayedImage):
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-            coords['c'] = channels.code_list()
+            coords['c'] = channels.normalize().code_list()
             if len(subfinal.shape) == 2:
                 subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
-- 
2.43.0


From 694f37de8444305289650c5453c0e2b7fac309c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 32/37] fix: a single band file without channel names could not
 be converted to xarray

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1b507cd..980c67a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1650,8 +1650,8 @@ class DelayedAsXarray(DelayedImage):
         coords = {}
         if channels is not None:
             coords['c'] = channels.normalize().code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From 9f7339e05315874edf5dc8dc4134aa5c2ad37959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 33/37] fix: simulated overview of an empty region raised an
 error

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 980c67a..b66c317 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3176,6 +3176,10 @@ class DelayedOverview(DelayedImage):
             )
         )
         sub_final = np.asarray(sub_final)
+        if 0 in sub_final.shape[0:2]:
+            # There is nothing to resize
+            w, h = self.meta['dsize']
+            return np.empty((h, w) + sub_final.shape[2:], sub_final.dtype)
         final = kwimage.imresize(
             sub_final,
             dsize=self.meta['dsize'],
-- 
2.43.0


From 6a02ef61c916e7d5d1dcff5e9e42f546e376f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 34/37] fix: a nearest warp onto an empty canvas had a pixel

---
 delayed_image/delayed_nodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b66c317..8d32eb1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1945,6 +1945,7 @@ class DelayedWarp(DelayedImage):
                 and sx > 0
                 and sy > 0
                 and prewarp.size > 0
+                and 0 not in (dsize or ())
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
@@ -2010,7 +2011,11 @@ class DelayedWarp(DelayedImage):
 
             # Last-resort rescue for pathological runtime stacks where both
             # matrix conventions collapse to mostly NaNs.
-            if prewarp.size > 0 and max(score1[0], score2[0]) < 0.05:
+            if (
+                prewarp.size > 0
+                and final.size > 0
+                and max(score1[0], score2[0]) < 0.05
+            ):
                 final = kwimage.imresize(
                     prewarp, dsize=dsize, interpolation='nearest'
                 )
-- 
2.43.0


From 32c4bf35253ac8391f6db6fee1d6dced7a50b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 35/37] fix: concatenating masked parts lost their masks

---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8d32eb1..5c58399 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -788,7 +788,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             final = stack[0]
         else:
             stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                # The regular concatenate discards the masks
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From 46f7405a5cfdc401a61c570a31fdcf2871f0b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 36/37] fix: masked pixels became valid when converted to
 xarray

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5c58399..fbac9cc 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1649,7 +1649,7 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        subfinal = np.asanyarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-- 
2.43.0


From 5839aac4f23ab0c5e965967e9d8edcf1e714c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:26 +0000
Subject: [PATCH 37/37] fix: selecting no channel of a concatenation keeps its
 size

The result was a concatenation without parts and without size, so that
optimizing a crop with an empty band list raised and finalizing it failed.
---
 delayed_image/delayed_nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fbac9cc..f23a03f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1004,6 +1004,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         # Accumulate final segment
         if curr is not None:
             outer_accum.append(curr)
+        elif self.parts:
+            # Nothing is requested, take nothing from an existing part
+            return _as_image_like(
+                DelayedChannelConcat([self.parts[0].take_channels([])])
+            )
 
         # Gather the subcomponents into a new delayed concat
         new_components = [
-- 
2.43.0

