From 36ad93cb78a1718cfd57d5e4b2f2d4c50be0d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 001/170] fix: keep samples whose streams cancel when
 sparsifying a signal

---
 hermespy/core/signal_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..195bd2a 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1764,7 +1764,7 @@ class SparseSignal(Signal):
             return [SignalBlock(block.shape[0], block.shape[1], offset, block.tobytes())]
 
         # Find nonzero columns indices
-        nonzero_cols_idx = np.sum(block.view(np.ndarray), axis=0).nonzero()[
+        nonzero_cols_idx = np.any(block.view(np.ndarray) != 0, axis=0).nonzero()[
             0
         ]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
         if len(nonzero_cols_idx) == 0:
-- 
2.43.0


From dc4021d15f67d8b0e8d9d8fb00ad7cb2aa240fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 002/170] fix: align later signals by their delay when
 superimposing onto a dense signal

---
 hermespy/core/signal_model.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 195bd2a..1704600 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1474,6 +1474,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
             _added_signal = added_signal
 
         # Account for possible delay differences
+        shift = 0
         if self.delay != _added_signal.delay:
             if interpolation == InterpolationMode.NEAREST:
                 if self.delay > _added_signal.delay:
@@ -1484,13 +1485,9 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
                         ) :,
                     ]
                 else:
-                    _added_signal = _added_signal[
-                        :,
-                        : _added_signal.num_samples
-                        - int(
-                            round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
-                        ),
-                    ]
+                    shift = int(
+                        round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
+                    )
 
             else:
                 raise NotImplementedError(
@@ -1499,14 +1496,14 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         if (
             _added_signal.num_streams <= self.num_streams
-            and _added_signal.num_samples <= self.num_samples
+            and shift + _added_signal.num_samples <= self.num_samples
         ):
             return_signal = self
 
         else:
             # Generate a new dense signal with enough memory to hold both signals
             new_num_streams = max(self.num_streams, _added_signal.num_streams)
-            new_num_samples = max(self.num_samples, _added_signal.num_samples)
+            new_num_samples = max(self.num_samples, shift + _added_signal.num_samples)
             dense_signal = DenseSignal.Zeros(
                 new_num_streams,
                 new_num_samples,
@@ -1523,7 +1520,7 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         # Add the added_signal to the new dense signal
         _stream_indices = slice(None) if stream_indices is None else stream_indices
         for b in _added_signal.blocks:
-            return_signal[_stream_indices, b.offset : b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
+            return_signal[_stream_indices, shift + b.offset : shift + b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
                 return_signal.sampling_rate,
                 return_signal.carrier_frequency,
                 _added_signal.sampling_rate,
-- 
2.43.0


From 76ad38da394c215289d485c1e2fff9dcf918f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 003/170] fix: do not shift the added signal's own blocks
 during sparse superposition

---
 hermespy/core/signal_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 1704600..689d158 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2376,7 +2376,7 @@ class SparseSignal(Signal):
             num_delay_samples = int(
                 round((added_signal.delay - self.delay) * added_signal.sampling_rate)
             )
-            added_blocks = added_signal.blocks
+            added_blocks = [b.copy() for b in added_signal.blocks]
             if interpolation is InterpolationMode.NEAREST:
                 for b in added_blocks:
                     b.offset += num_delay_samples
-- 
2.43.0


From 25ac14d4513a1b0cefa432c0640415489613e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 004/170] fix: per-stream energy and power of sparse signals

---
 hermespy/core/signal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 689d158..cf05c74 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1712,12 +1712,12 @@ class SparseSignal(Signal):
     @property
     @override
     def energy(self) -> np.ndarray:
-        return np.sum([b.energy for b in self.blocks])
+        return np.sum([b.energy for b in self.blocks], axis=0)
 
     @property
     @override
     def power(self) -> np.ndarray:
-        return np.mean([b.power for b in self.blocks], axis=0)
+        return self.energy / sum(b.num_samples for b in self.blocks)
 
     @override
     def view(self, dtype: type[AT]) -> AT:
-- 
2.43.0


From b1e86815d5e5f52d472d7498cbc9906fb615c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 005/170] fix: select the correct samples when slicing sparse
 signals with a step

---
 hermespy/core/signal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index cf05c74..adc1885 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2089,8 +2089,8 @@ class SparseSignal(Signal):
                 # Calculate the first index of the new block in the result
                 block_start_index = max(samples_start - block.offset, 0)
                 block_start_index += (
-                    block_start_index + block.offset - samples_start
-                ) % samples_step
+                    -(block_start_index + block.offset - samples_start) % samples_step
+                )
 
                 # Calculate the last index of the new block in the result
                 block_end_index = min(samples_end - block.offset, block.num_samples)
-- 
2.43.0


From c34db3c3c3a3b935367f4116179a67c17683f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 006/170] fix: scale every non-zero signal during conversion to
 interleaved integers

---
 hermespy/core/signal_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index adc1885..3494d19 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1139,9 +1139,7 @@ class Signal(ABC, Iterable, Serializable):
         samples = self.to_dense().copy().view(np.ndarray)
 
         # Scale samples if required
-        if (
-            scale and samples.shape[1] > 0 and (samples.max() > 1.0 or samples.min() < 1.0)
-        ):  # pragma: no cover
+        if scale and np.any(samples):  # pragma: no cover
             samples /= np.max(abs(samples))
             samples *= np.iinfo(data_type).max
 
-- 
2.43.0


From 368e667de20904c7be09d4617a030a89da2a893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 007/170] fix: append streams to sparse signals with differing
 non-zero regions

---
 hermespy/core/signal_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 3494d19..6c9915e 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2617,12 +2617,15 @@ class SparseSignal(Signal):
         blocks_new = []
         for block_start, block_stop in zip(b_offs, b_stops):
 
-            # Select the respective blocks to be mergerd from both signal models
-            initial_block = self[:, block_start:block_stop].view(np.ndarray)
-            appended_block = value[:, block_start:block_stop].view(np.ndarray)
-
             # Merge the blocks into a new block with increased number of streams
-            new_block = np.concatenate((initial_block, appended_block), axis=0)
+            new_block = np.zeros((new_num_streams, block_stop - block_start), np.complex128)
+            for b in self.blocks:
+                if b.offset >= block_start and b.end <= block_stop:
+                    new_block[: self.num_streams, b.offset - block_start : b.end - block_start] = b
+            for b in blocks_incoming:
+                if b.offset >= block_start and b.end <= block_stop:
+                    new_block[self.num_streams :, b.offset - block_start : b.end - block_start] = b
+
             blocks_new.append(
                 SignalBlock(
                     new_num_streams, block_stop - block_start, block_start, new_block.tobytes()
-- 
2.43.0


From 321022eb7e475a91eea9a6db6a24aa226b265cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 008/170] fix: reject appending longer streams to a sparse
 signal

---
 hermespy/core/signal_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 6c9915e..29da794 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2610,6 +2610,10 @@ class SparseSignal(Signal):
             for b_ in self.__from_dense(b):
                 blocks_incoming.append(b_)
 
+        # Check if the number of samples match
+        if any(b.end > self.num_samples for b in blocks_incoming):
+            raise ValueError("Number of samples do not match")
+
         # Create new resulting blocks
         new_num_streams = self.num_streams + value.shape[0]
         b_offs, b_stops = self._getblocks_union(self.blocks, blocks_incoming)
-- 
2.43.0


From ecf919b758972101352f552e9546288589cce3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 009/170] fix: item assignment of sparse signals

---
 hermespy/core/signal_model.py | 179 +++++++++-------------------------
 1 file changed, 45 insertions(+), 134 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 29da794..767e199 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2178,64 +2178,22 @@ class SparseSignal(Signal):
         s01 = min(self.num_streams, s01)
         s11 = min(self.num_samples, s11)
 
-        # If insertion happens entirely before the first block
-        if s11 < self.blocks[0].offset:
-            # then create new blocks and insert them into the model
-            if not isinstance(value, np.ndarray):
-                value = np.complex128(value)
-                if value == 0.0 + 0.0j:
-                    return
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-            else:
-                bs_new = self.__from_dense(value.reshape((num_streams, num_samples)))
-            self.__blocks = bs_new + self.blocks
-            return
-
         # Get sliced streames indices
         stream_idx = np.arange(s00, s01, s02)
-        # Do nothing if no streams are affected
-        if stream_idx.size == 0:
+        # Do nothing if no streams or samples are affected
+        if stream_idx.size == 0 or num_samples < 1:
             return
 
         # Parse and validate value samples
-        # Parse scalar values
+        new_samples: np.ndarray
         if not isinstance(value, np.ndarray):
-            value = np.complex128(value)
-
-            # Special case: Do nothing if the value is zero
-            if value == 0.0 + 0.0j:
-                bs_new = []
-
-            # Otherwise the added blocks are a single block of the given value
-            else:
-                bs_new = [
-                    SignalBlock(
-                        num_streams,
-                        num_samples,
-                        s10,
-                        bytearray(np.full((num_streams, num_samples), value, np.complex128)),
-                    )
-                ]
-
-        # Parse matrix values
-        else:  # else value is a samples matrix
-            if value.ndim == 1:
-                value = value.reshape((num_streams, num_samples))
-            bs_new = self.__from_dense(value, s10)
-            if len(bs_new) == 0:
-                return  # pragma: no cover
-            if bs_new[-1].end - bs_new[0].offset > num_samples or bs_new[0].shape[0] != num_streams:
-                raise ValueError("Shape mismatch")
-
-        # Find blocks that will be overwritten or modified.
-        b_start, b_stop = self._find_affectedblocks(s10, s11)
+            new_samples = np.full((num_streams, num_samples), value, np.complex128)
+        elif value.ndim == 1:
+            new_samples = value.reshape((num_streams, num_samples))
+        else:
+            new_samples = value.view(np.ndarray)
+        if new_samples.shape != (num_streams, num_samples):
+            raise ValueError("Shape mismatch")
 
         # Example:
         #     s10                   s11
@@ -2243,88 +2201,41 @@ class SparseSignal(Signal):
         # xxxxxxxx0000000xxxx000xxxxxxxxx -- self signal
         #      yyyyy00yy0000yyyyy0000     -- value
         # xxxxxyyyyy00yy0000yyyyy0000xxxx -- result
-        # ^   ^                           -- remaining samples from the first affected block
-        #      ^   value samples    ^
-        #                            ^  ^ -- remaining samples from the last affected block
-
-        # Init the resulting blocks
-        # Here the resulting blocks list is divided
-        # onto 3 parts as on the ascii example.
-        # b_start and b_stop can be sliced partially and will be added to the lists right after.
-        # value argument will be applied only to the middle blocks (_mid).
-        blocks_new_beg = self.__blocks[:b_start]
-        blocks_new_mid = [b for b in self.__blocks[b_start + 1 : b_stop]]
-        blocks_new_end = self.__blocks[b_stop + 1 :]
-
-        # Cut the first affected block
-        # Example:
-        #      s10                  s10
-        #       v                    v
-        # xxxxxxxxxxxx00000 -> xxxxxxxxxxxx00000
-        # [ b_start  ]         [1st ][2nd ]
-        b = self.blocks[b_start]
-        cut_col = max(s10 - b.offset, 0)  # max is for s10 < self.blocks[0].offset
-        b_l = b[:, :cut_col]
-        b_r = b[:, cut_col:]
-        b_r.offset += cut_col
-        if b_l.size != 0:
-            blocks_new_beg.append(b_l)
-        if b_r.size != 0:
-            blocks_new_mid = [b_r] + blocks_new_mid
-
-        # Cut the last affected block
-        if b_start != b_stop:
-            b = self.blocks[b_stop]
-            cut_col = s11 - b.offset
-            b_l = b[:, :cut_col]
-            b_r = b[:, cut_col:]
-            b_r.offset += cut_col
-            if b_l.size != 0:
-                blocks_new_mid.append(b_l)
-            if b_r.size != 0:
-                blocks_new_end = [b_r] + blocks_new_end
-
-        # If only some of the streams are being replaced,
-        # then block merging must be performed.
-        if stream_idx.size != self.num_streams:
-            b_offs, b_stops = self._getblocks_union(blocks_new_mid, bs_new)
-
-            # Asseble the new blocks
-            incoming_signal = SparseSignal(
-                bs_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
-            )
-            blocks_new_mid_new = []
-            for b_off, b_stop in zip(b_offs, b_stops):
-                b_new = self[(slice(None, None), slice(b_off, b_stop))].view(np.ndarray)
-                b_new[stream_idx, :] = incoming_signal[:, b_off : min(b_stop, s11)]
-
-                blocks_new_mid_new.append(
-                    SignalBlock(b_new.shape[0], b_new.shape[1], b_off, bytearray(b_new))
-                )
-            blocks_new_mid = blocks_new_mid_new
-
-        # Otherwise, the middle blocks are being simply replaced with the new ones
-        else:
-            blocks_new_mid = bs_new
-
-        # Insert the result into this sparse signal model
-        self.__blocks = blocks_new_beg + blocks_new_mid + blocks_new_end
-        # merge new beginning blocks if needed
-        if len(blocks_new_beg) != 0:
-            b2_idx = len(blocks_new_beg)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
-        # merge new ending blocks if needed
-        if len(blocks_new_end) != 0:
-            b2_idx = -len(blocks_new_end)
-            b1 = self.__blocks[b2_idx - 1]
-            b2 = self.__blocks[b2_idx]
-            if b1.end == b2.offset:
-                self.__blocks[b2_idx - 1] = b1.append_samples(b2)
-                self.__blocks.pop(b2_idx)
+        # ^   ^                           -- remaining samples before the written window
+        #      ^      window        ^
+        #                            ^  ^ -- remaining samples after the written window
+
+        # Cut the existing blocks at the boundaries of the written window
+        blocks_beg: list[SignalBlock] = []
+        blocks_end: list[SignalBlock] = []
+        window = np.zeros((self.num_streams, num_samples), np.complex128)
+        for b in self.blocks:
+            b_samples = b.view(np.ndarray)
+            if b.offset < s10:
+                beg = b_samples[:, : s10 - b.offset]
+                blocks_beg.append(SignalBlock(*beg.shape, b.offset, beg.tobytes()))
+            if b.offset < s11 and b.end > s10:
+                w_start, w_stop = max(b.offset, s10), min(b.end, s11)
+                window[:, w_start - s10 : w_stop - s10] = b_samples[
+                    :, w_start - b.offset : w_stop - b.offset
+                ]
+            if b.end > s11:
+                end_start = max(s11 - b.offset, 0)
+                end = b_samples[:, end_start:]
+                blocks_end.append(SignalBlock(*end.shape, b.offset + end_start, end.tobytes()))
+
+        # Write the new samples and sparsify the window
+        window[stream_idx, :] = new_samples
+        blocks_mid = self.__from_dense(window, s10)
+
+        # Insert the result into this sparse signal model, merging directly neighboring blocks
+        merged_blocks: list[SignalBlock] = []
+        for b in blocks_beg + blocks_mid + blocks_end:
+            if len(merged_blocks) > 0 and merged_blocks[-1].end == b.offset:
+                merged_blocks[-1] = merged_blocks[-1].append_samples(b)
+            else:
+                merged_blocks.append(b)
+        self.__blocks = merged_blocks
 
     @override
     def resample(self, sampling_rate: float, aliasing_filter: bool = True) -> SparseSignal:
-- 
2.43.0


From 5924d19026fd87212afeb3a1600c84ddc6b21e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 010/170] fix: always reject forbidden resampling during sparse
 superposition

---
 hermespy/core/signal_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 767e199..b155e8d 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2259,6 +2259,9 @@ class SparseSignal(Signal):
         stream_indices: Sequence[int] | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> SparseSignal:
+        if added_signal.sampling_rate != self.sampling_rate and not resample:
+            raise RuntimeError("Resampling required but not allowed")
+
         # Account for the delay difference (if any)
 
         # If the superimposed signal's delay is smaller,
@@ -2310,9 +2313,6 @@ class SparseSignal(Signal):
         if _stream_indices.max() >= self.num_streams:
             raise ValueError(f"Stream indices must be in the interval [0, {self.num_streams - 1}]")
 
-        if added_signal.sampling_rate != self.sampling_rate and not resample:
-            raise RuntimeError("Resampling required but not allowed")
-
         # Generate superimposed signal blocks
         added_resampled_blocks = [
             b.resample_block(added_signal.sampling_rate, self.sampling_rate, False).superimpose_to(
-- 
2.43.0


From 5bd47c235ce9b52ba9725fb626d7361c7f851eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 011/170] fix: do not reserve samples for disabled
 multi-carrier prefixes

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..eca376c 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -631,7 +631,9 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
 
         # Add up the additional samples from cyclic prefixes
         for resource_idx in self.pattern:
-            num += int(num_samples_per_slot * self.wave.grid_resources[resource_idx].prefix_ratio)
+            resource = self.wave.grid_resources[resource_idx]
+            if resource.prefix_type != PrefixType.NONE:
+                num += int(num_samples_per_slot * resource.prefix_ratio)
 
         # Add up the base samples from each timeslot
         return num * self.num_repetitions
-- 
2.43.0


From 607a198a159b3565935865cd613ee875eadcada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 012/170] fix: correct the sample offset of every grid section

---
 hermespy/modem/waveforms/orthogonal/ofdm.py     | 14 +++++++-------
 hermespy/modem/waveforms/orthogonal/waveform.py |  1 +
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..7cff749 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -163,17 +163,17 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     def _correct_sample_offset(
         self, symbol_subgrid: np.ndarray, sample_offset: int, oversampling_factor: int
     ) -> np.ndarray:
-        frame_start_idx = (
-            oversampling_factor * self.num_subcarriers
-        ) // 2 - self.num_subcarriers // 2
-        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))[
-            frame_start_idx : frame_start_idx + self.num_subcarriers
-        ]
+        num_bins = oversampling_factor * self.num_subcarriers
+        freqs = fftshift(fftfreq(num_bins))
 
+        # Account for the DC suppression, identical to the backward transformation
         if self.dc_suppression:
-            dc_index = int(0.5 * symbol_subgrid.shape[1])
+            dc_index = int(0.5 * num_bins)
             freqs[dc_index:] = np.roll(freqs[dc_index:], -1)
 
+        frame_start_idx = num_bins // 2 - self.num_subcarriers // 2
+        freqs = freqs[frame_start_idx : frame_start_idx + self.num_subcarriers]
+
         return symbol_subgrid * np.exp(2j * np.pi * freqs * sample_offset)
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index eca376c..46e7060 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1362,6 +1362,7 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                         oversampling_factor,
                     )
                 )
+            block_idx += section.num_words
 
         return Symbols(symbol_grid[np.newaxis, :, :])
 
-- 
2.43.0


From 8d1e098e9f814cf26f1dda36afeff1d57e30c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 013/170] fix: least-squares estimation from references on a
 single line of the grid

---
 .../modem/waveforms/orthogonal/channel.py     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/channel.py b/hermespy/modem/waveforms/orthogonal/channel.py
index 7ab23e3..ee79555 100644
--- a/hermespy/modem/waveforms/orthogonal/channel.py
+++ b/hermespy/modem/waveforms/orthogonal/channel.py
@@ -51,9 +51,23 @@ class OrthogonalLeastSquaresChannelEstimation(ChannelEstimation[OrthogonalWavefo
         holes = np.where(np.invert(resource_mask[ElementType.REFERENCE.value, ::]))
         if holes[0].size != 0:
             interpolation_stems = np.where(resource_mask[ElementType.REFERENCE.value, ::])
-            interpolated_holes = griddata(
-                interpolation_stems, reference_channel_estimation, holes, method="linear"
-            )
+            # A surface can only be interpolated between references which are not all on a line.
+            # References within a single word or subcarrier are interpolated along that line.
+            stem_grid = np.stack(interpolation_stems)
+            constant_axes = np.ptp(stem_grid, axis=1) == 0
+            if np.any(constant_axes):
+                axis = int(np.argmin(constant_axes))
+                interpolated_holes = np.interp(
+                    holes[axis], interpolation_stems[axis], reference_channel_estimation
+                )
+            else:
+                collinear = np.linalg.matrix_rank(stem_grid - stem_grid[:, :1]) < 2
+                interpolated_holes = griddata(
+                    interpolation_stems,
+                    reference_channel_estimation,
+                    holes,
+                    method="nearest" if collinear else "linear",
+                )
             channel_estimation[0, 0, holes[0], holes[1]] = interpolated_holes
 
         # Fill nan values with nearest neighbor
-- 
2.43.0


From 4947f79f573d6fcb2ebe0bef3b0cc456df51f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 014/170] fix: apply the configured correlation synchronization
 threshold and guard ratio

---
 hermespy/modem/waveform_correlation_synchronization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_correlation_synchronization.py b/hermespy/modem/waveform_correlation_synchronization.py
index 53a495a..66c7a3f 100644
--- a/hermespy/modem/waveform_correlation_synchronization.py
+++ b/hermespy/modem/waveform_correlation_synchronization.py
@@ -148,7 +148,9 @@ class CorrelationSynchronization(Generic[PGT], Synchronization[PGT]):
         # Determine the pilot sequence locations by performing a peak search over the correlation profile
         frame_length = self.waveform.samples_per_frame(bandwidth, oversampling_factor)
         pilot_indices, _ = find_peaks(
-            abs(correlation), height=0.9, distance=int(0.8 * frame_length)
+            abs(correlation),
+            height=self.threshold,
+            distance=max(1, int(self.guard_ratio * frame_length)),
         )
 
         # Abort if no pilot section has been detected
-- 
2.43.0


From 12f42333d9195240ffa2e25b4a51611afec6081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 015/170] fix: silent guard intervals of chirp FSK frames

---
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
-- 
2.43.0


From c7e387098c9fb05b71bec0d96abdddf1724cf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 016/170] fix: frame duration of FMCW waveforms

---
 hermespy/modem/waveform_single_carrier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..02429fa 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -935,6 +935,10 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
         return self._num_frame_symbols * self.num_samples_per_chirp * oversampling_factor
 
+    @override
+    def frame_duration(self, bandwidth: float) -> float:
+        return self._num_frame_symbols * self.num_samples_per_chirp / bandwidth
+
     @override
     def symbol_energy(self, bandwidth: float, oversampling_factor: int) -> float:
         return self.num_samples_per_chirp * oversampling_factor
-- 
2.43.0


From d079bc56b753a71f01259ae91d3e6fb2b4cd8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 017/170] fix: sample single-carrier pulses of odd filter
 length at the sampling rate

---
 hermespy/modem/waveform_single_carrier.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 02429fa..624c712 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -786,14 +786,9 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
-            )
-            * self.relative_bandwidth
-        )
+            np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+            - int(0.5 * self.filter_length)
+        ) * self.relative_bandwidth
 
         # Build filter response
         idx_0_by_0 = time == 0  # indices with division of zero by zero
@@ -834,14 +829,9 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
 
         # Generate timestamps
         time = (
-            np.linspace(
-                -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
-                self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
-            )
-            * self.relative_bandwidth
-        )
+            np.arange(self.filter_length * oversampling_factor) / oversampling_factor
+            - int(0.5 * self.filter_length)
+        ) * self.relative_bandwidth
 
         # Build filter response
         if self.roll_off != 0:
-- 
2.43.0


From 44d4210317c91b1bc28fa7c8087db570dd4d6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 018/170] fix: evaluate single-carrier pulses next to their
 removable singularities

---
 hermespy/modem/waveform_single_carrier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 624c712..7a9ce2b 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -791,11 +791,11 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
         ) * self.relative_bandwidth
 
         # Build filter response
-        idx_0_by_0 = time == 0  # indices with division of zero by zero
+        idx_0_by_0 = np.isclose(time, 0.0)  # indices with division of zero by zero
 
         if self.roll_off != 0:
             # indices with division by zero
-            idx_x_by_0 = abs(time) == 1 / (4 * self.roll_off)
+            idx_x_by_0 = np.isclose(abs(time), 1 / (4 * self.roll_off), rtol=1e-8)
         else:
             idx_x_by_0 = np.zeros_like(time, dtype=bool)
         idx = (~idx_0_by_0) & (~idx_x_by_0)
@@ -836,7 +836,7 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
         # Build filter response
         if self.roll_off != 0:
             # indices with division of zero by zero
-            idx_0_by_0 = abs(time) == 1 / (2 * self.roll_off)
+            idx_0_by_0 = np.isclose(abs(time), 1 / (2 * self.roll_off), rtol=1e-8)
         else:
             idx_0_by_0 = np.zeros_like(time, dtype=bool)
         idx = ~idx_0_by_0
-- 
2.43.0


From 8702eaa61e9eb7ad05f30a44f3225468489861c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 019/170] fix: pilot signal of FMCW waveforms with several
 preamble symbols

---
 hermespy/modem/waveform_single_carrier.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 7a9ce2b..c1b1df3 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -933,6 +933,25 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
     def symbol_energy(self, bandwidth: float, oversampling_factor: int) -> float:
         return self.num_samples_per_chirp * oversampling_factor
 
+    @override
+    def pilot_signal(self, bandwidth: float, oversampling_factor: int) -> Signal:
+        if self.num_preamble_symbols < 1:
+            return Signal.Empty(bandwidth * oversampling_factor, 1, 0)
+
+        # Consecutive chirps are spaced by a full chirp length
+        samples_per_chirp = oversampling_factor * self.num_samples_per_chirp
+        pilot_symbols = np.zeros(
+            1 + (self.num_preamble_symbols - 1) * samples_per_chirp, dtype=np.complex128
+        )
+        pilot_symbols[::samples_per_chirp] = self.pilot_symbols(self.num_preamble_symbols)
+
+        return Signal.Create(
+            np.convolve(pilot_symbols, self._transmit_filter(oversampling_factor))
+            .astype(np.complex128)
+            .reshape((1, -1)),
+            bandwidth * oversampling_factor,
+        )
+
     @property
     @override
     def power(self) -> float:
-- 
2.43.0


From 8d119ee1ede930deaaa61b0890e4e1c64e6d5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 020/170] fix: decode checksum blocks without check bits

---
 hermespy/fec/cyclic_redundancy_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 254b53d..4ab0a5c 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: -self.__check_block_size]
+        return code[: len(code) - self.__check_block_size]
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From b5742d822a6eada72de9413526856fd352ea5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 021/170] fix: block sizes of encoding chains with misaligned
 blocks

---
 hermespy/fec/coding.py | 57 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..aed8607 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -286,7 +286,9 @@ class EncoderManager(RandomNode, Serializable):
 
             num_padding_bits = num_code_bits - len(code_state)
 
-            if num_padding_bits >= self.code_block_size:
+            num_missing_bits = self.required_num_data_bits(num_code_bits) - len(data_bits)
+
+            if num_missing_bits >= self.bit_block_size:
                 raise ValueError("Insufficient number of input blocks provided for encoding")
 
             code_state = np.append(
@@ -372,28 +374,7 @@ class EncoderManager(RandomNode, Serializable):
         or the number of output bits during receive decoding.
         Referred to as :math:`K` within the respective equations."""
 
-        if len(self._encoders) < 1:
-            return 1
-
-        encoder_index = 0
-        block_size = 1
-        num_bits = 1
-
-        for encoder_index, encoder in enumerate(self._encoders):
-            if encoder.enabled:
-                block_size = encoder.bit_block_size
-                num_bits = encoder.code_block_size
-                break
-
-        for encoder in self._encoders[encoder_index + 1 :]:
-            if not encoder.enabled:
-                continue
-
-            repetitions = int(encoder.bit_block_size / num_bits)
-            block_size *= repetitions
-            num_bits *= int(repetitions / encoder.rate)
-
-        return block_size
+        return self.__block_sizes()[0]
 
     @property
     def code_block_size(self) -> int:
@@ -404,11 +385,33 @@ class EncoderManager(RandomNode, Serializable):
         Referred to as :math:`L` within the respective equations.
         """
 
-        for encoder in reversed(self.encoders):
-            if encoder.enabled:
-                return encoder.code_block_size
+        return self.__block_sizes()[1]
+
+    def __block_sizes(self) -> tuple[int, int]:
+        """Compute the data and code bit block sizes of the full encoding chain.
+
+        Subsequent encoders operate on as many blocks as are required to contain the
+        code generated by their predecessors.
+
+        Returns: Tuple of data bit block size and code bit block size.
+        """
+
+        enabled_encoders = [encoder for encoder in self._encoders if encoder.enabled]
+        if len(enabled_encoders) < 1:
+            return 1, 1
+
+        bit_block_size = enabled_encoders[0].bit_block_size
+        code_block_size = enabled_encoders[0].code_block_size
+
+        for encoder in enabled_encoders[1:]:
+            # Number of preceding blocks fitting into a single block of this encoder
+            bit_block_size *= max(1, encoder.bit_block_size // code_block_size)
+
+            # Number of blocks of this encoder required to encode a single preceding block
+            num_blocks = ceil(code_block_size / encoder.bit_block_size)
+            code_block_size = num_blocks * encoder.code_block_size
 
-        return 1
+        return bit_block_size, code_block_size
 
     def __execution_order(self) -> list[Encoder]:
         """Sort the encoders into an order of execution.
-- 
2.43.0


From f7c64a47acf0e0e35622e0f5052ccc23ddc06c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 022/170] fix: do not decode padding bits appended to encoded
 blocks

---
 hermespy/fec/coding.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index aed8607..4fb7978 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -318,7 +318,6 @@ class EncoderManager(RandomNode, Serializable):
         """
 
         bit_block_size = self.bit_block_size
-        code_block_size = self.code_block_size
         # Float to int conversion floors by default
         num_blocks = int(encoded_bits.shape[0] / self.code_block_size)
 
@@ -339,19 +338,25 @@ class EncoderManager(RandomNode, Serializable):
 
         data_state = encoded_bits.copy()
 
-        # Loop through the encoders decode the code using the output of the last encoder as input to the next
-        for encoder in reversed(self._encoders):
+        # Compute the number of blocks encoded by each coding step during transmission
+        # Blocks exclusively containing padding bits must not be decoded
+        coding_steps: list[tuple[Encoder, int]] = []
+        num_step_bits = num_data_bits
+        for encoder in self._encoders:
             # Skip if the respective encoder is disabled
             if not encoder.enabled:
                 continue
 
+            num_blocks = ceil(num_step_bits / encoder.bit_block_size)
+            num_step_bits = num_blocks * encoder.code_block_size
+            coding_steps.append((encoder, num_blocks))
+
+        # Loop through the encoders decode the code using the output of the last encoder as input to the next
+        for encoder, num_blocks in reversed(coding_steps):
             code_block_size = encoder.code_block_size
             data_block_size = encoder.bit_block_size
 
-            # Compute the number of blocks within the code for this coding step
-            num_blocks = int(len(data_state) / code_block_size)
-
-            # Truncate if allowed, otherwise throw an exception
+            # Truncate the padding
             code_state = data_state[: num_blocks * code_block_size]
             data_state = np.empty(num_blocks * data_block_size, dtype=bool)
 
-- 
2.43.0


From d3d6d21a1e47db278feed7b9f9cd97d37e522eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 023/170] fix: independent scrambling and descrambling
 registers of the 802.11a scrambler

---
 hermespy/fec/scrambler.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..e562842 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -209,6 +209,7 @@ class Scrambler80211a(Encoder, Serializable):
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     @property
     def seed(self) -> np.ndarray:
@@ -239,41 +240,53 @@ class Scrambler80211a(Encoder, Serializable):
 
         self.__seed = value
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
         code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        data = np.array(
+            [self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int
+        )
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue:
+                The shift register generating the sequence.
+                The register scrambling transmitted bits by default.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        _queue = self.__queue if queue is None else queue
+        code_bit = (_queue[3] + _queue[6]) % 2
+        _queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque | None = None) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
+            queue:
+                The shift register generating the scrambling sequence.
+                The register scrambling transmitted bits by default.
 
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From f4a11c54c94ed91229059aad6bad902876c10b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 024/170] fix: scalar components of quaternions computed from
 rotations

---
 hermespy/core/transformation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..c78770f 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -209,7 +209,7 @@ class Transformation(np.ndarray, Serializable):
             S = 2 * (tr + 1.0) ** 0.5
             return np.array(
                 [
-                    0.25 / S,
+                    0.25 * S,
                     (self[2, 1] - self[1, 2]) / S,
                     (self[0, 2] - self[2, 0]) / S,
                     (self[1, 0] - self[0, 1]) / S,
@@ -222,7 +222,7 @@ class Transformation(np.ndarray, Serializable):
             return np.array(
                 [
                     (self[2, 1] - self[1, 2]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[0, 1] + self[1, 0]) / S,
                     (self[0, 2] + self[2, 0]) / S,
                 ],
@@ -235,7 +235,7 @@ class Transformation(np.ndarray, Serializable):
                 [
                     (self[0, 2] - self[2, 0]) / S,
                     (self[0, 1] + self[1, 0]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[1, 2] + self[2, 1]) / S,
                 ],
                 dtype=np.float64,
@@ -247,7 +247,7 @@ class Transformation(np.ndarray, Serializable):
                 (self[1, 0] - self[0, 1]) / S,
                 (self[0, 2] + self[2, 0]) / S,
                 (self[1, 2] + self[2, 1]) / S,
-                0.25 / S,
+                0.25 * S,
             ],
             dtype=np.float64,
         )
-- 
2.43.0


From 57a6f20ca5593a41ee0fbf371b2dbf8e772f8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 025/170] fix: roll, pitch and yaw angles of rotations close to
 gimbal lock

---
 hermespy/core/transformation.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index c78770f..7a0389e 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -146,15 +146,17 @@ class Transformation(np.ndarray, Serializable):
         """
 
         c = (self[0, 0] ** 2 + self[1, 0] ** 2) ** 0.5
+        pitch = np.arctan2(-self[2, 0], c)
+
+        # Roll and yaw are ambiguous if the pitch is at a pole,
+        # so that the roll is selected to complement the yaw
+        yaw = np.arctan2(self[1, 0], self[0, 0])
+        sin, cos = np.sin(yaw), np.cos(yaw)
+        roll = np.arctan2(
+            sin * self[0, 2] - cos * self[1, 2], cos * self[1, 1] - sin * self[0, 1]
+        )
 
-        if c != 0:
-            rpy = np.arctan2(
-                [self[2, 1] / c, -self[2, 0], self[1, 0] / c], [self[2, 2] / c, c, self[0, 0] / c]
-            )
-
-        else:
-            rpy = np.array([np.arctan2(self[0, 1], self[1, 1]), 0.5 * np.pi, 0], dtype=np.float64)
-
+        rpy = np.array([roll, pitch, yaw], dtype=np.float64)
         return rpy.view(np.ndarray)
 
     @rotation_rpy.setter
-- 
2.43.0


From 8da2fdb69b5ec46477156942fc20207c23ff5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 026/170] fix: looking at degenerate targets without altering
 the up argument

---
 hermespy/core/transformation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 7a0389e..f53f85e 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -470,18 +470,23 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
         pos = self.translation
         f = target_ - pos
         f_norm = np.linalg.norm(f)
-        f = f / f_norm if f_norm != 0.0 else pos  # normalize
+        if f_norm == 0.0:  # There is no direction to look at
+            return self
+        f = f / f_norm  # normalize
         # side/right vector
         s = np.cross(up_, f)
         s_norm = np.linalg.norm(s)
-        s = s / s_norm if s_norm != 0.0 else up_  # normalize
+        if s_norm < 1e-12:  # Any side vector is suitable if looking along the up vector
+            s = np.cross(np.eye(3)[np.argmin(np.abs(f))], f)
+            s_norm = np.linalg.norm(s)
+        s = s / s_norm  # normalize
         # up vector
         u = np.cross(f, s)
         # Calcualte the new transformation matrix
-- 
2.43.0


From e0b4c9bc6ef959dfe8463b8342bb9a5e3285ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 027/170] fix: notify linked frames about looking at a target

---
 hermespy/core/transformation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index f53f85e..0253200 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -778,6 +778,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
-- 
2.43.0


From b84bc1cebe6779f762199d24d3b649958bbc310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 028/170] fix: spherical coordinates of directions exceeding
 unit length by rounding

---
 hermespy/core/transformation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 0253200..a1fe8e7 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -79,7 +79,8 @@ class Direction(np.ndarray):
 
         # Equation 7.1-7 of ETSI TR 138901 v17
         # Only valid if the direction has been normalized!!!!
-        zenith = np.arccos(unit_vector[2])
+        # Rounding may lead to magnitudes exceeding one
+        zenith = np.arccos(max(-1.0, min(1.0, unit_vector[2])))
 
         return np.array([azimuth, zenith], dtype=np.float64)
 
-- 
2.43.0


From 167268981f5ab20f9d2cd52217914f150e3241a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 029/170] fix: antenna characteristics towards positions in the
 local frame of rotated arrays

---
 hermespy/core/antennas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..044827e 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -800,9 +800,14 @@ class AntennaArrayBase(ABC, Transformable):
 
         # Handle spherical parameters of function overload
         if not isinstance(arg_0, Direction):
-            global_direction = Direction.From_Cartesian(
+            direction = Direction.From_Cartesian(
                 arg_0 - self.global_position if frame == "global" else arg_0, True
             )
+            global_direction = (
+                direction
+                if frame == "global"
+                else self.forwards_transformation.transform_direction(direction)
+            )
 
         # Handle cartesian vector parameters of function overload
         else:
-- 
2.43.0


From c0173ac7b278d799d1da41926304b9ace9843756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 030/170] fix: dipole characteristics towards the poles

---
 hermespy/core/antennas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 044827e..99b63af 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -608,8 +608,11 @@ class Dipole(Antenna, Serializable):
         return Dipole(self.mode, self.pose.copy())
 
     def local_characteristics(self, azimuth: float, elevation: float) -> np.ndarray:
+        # The pattern vanishes towards both poles
         vertical_polarization = (
-            0.0 if elevation == 0.0 else cos(0.5 * pi * cos(elevation)) / sin(elevation)
+            0.0
+            if abs(sin(elevation)) < 1e-9
+            else cos(0.5 * pi * cos(elevation)) / sin(elevation)
         )
         return np.array([vertical_polarization, 0.0], dtype=float)
 
-- 
2.43.0


From 427d33914f295d4a62b06ea28440ead784f4e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 031/170] fix: consider the array's pose relative to its base
 in antenna array states

---
 hermespy/core/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 99b63af..b26492b 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1301,7 +1301,7 @@ class AntennaArray(AntennaArrayBase, Generic[AT]):
 
         # Create a copy of the antenna elements
         antenna_copies: list[AT] = [a.copy() for a in self.antennas]
-        return AntennaArrayState(antenna_copies, base_pose)
+        return AntennaArrayState(antenna_copies, (base_pose @ self.pose).view(Transformation))
 
 
 class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
-- 
2.43.0


From 0495312025b17f53024a2cff2577beff15a8b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 032/170] fix: copies of simulated dipoles

---
 hermespy/simulation/antennas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..c61c978 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -166,6 +166,8 @@ class SimulatedDipole(SimulatedAntenna, Dipole):
         Dipole.__init__(self, mode, pose)
         SimulatedAntenna.__init__(self, mode, pose, weight)
 
+    def copy(self) -> SimulatedDipole:
+        return SimulatedDipole(self.mode, self.pose, self.weight)
 
 class SimulatedIdealAntenna(SimulatedAntenna, IdealAntenna):
     """Model of single ideal antenna within an antenna array."""
-- 
2.43.0


From 0163770aa0fb0ce6038d14d5faa17cd53439bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 033/170] fix: keep antennas of simulated custom arrays linked
 to their array

---
 hermespy/simulation/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index c61c978..cf88847 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -806,5 +806,5 @@ class SimulatedCustomArray(SimulatedAntennaArray, CustomAntennaArray[SimulatedAn
         """
 
         # Initialize base classes
-        CustomAntennaArray.__init__(self, ports, pose)
         SimulatedAntennaArray.__init__(self, pose)
+        CustomAntennaArray.__init__(self, ports, pose)
-- 
2.43.0


From d7c1f9b406e62e06f7b4b99f24c150e9e320a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 034/170] fix: track lookat targets of static trajectories

---
 hermespy/simulation/animation.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index 94aa632..df40a3e 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -261,9 +261,6 @@ class StaticTrajectory(Trajectory):
     def sample_orientation(self, timestamp: float) -> np.ndarray:
         return self.__pose[:3, :3]
 
-    def sample(self, timestamp: float) -> TrajectorySample:
-        return TrajectorySample(timestamp, self.__pose, self.__velocity)
-
     @staticmethod
     def From_Translation(
         translation: np.ndarray, velocity: np.ndarray | None = None
-- 
2.43.0


From 1090cff7a00ddb2bb0261f58c7acf501e84d8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 035/170] fix: continuous position and consistent velocity of
 the B-shaped trajectory

---
 hermespy/simulation/animation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index df40a3e..b48561c 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -394,16 +394,16 @@ class BITrajectoryB(Trajectory):
         return start_point, end_point, start_time, end_time
 
     def sample_velocity(self, timestamp: float) -> np.ndarray:
-        start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
-        if timestamp <= start_time or timestamp >= end_time:
+        if timestamp < 0.0 or timestamp >= self.__duration:
             return np.zeros(3, np.float64)
-        return (end_point - start_point) / end_time - start_time
+
+        start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
+        return (end_point - start_point) / (end_time - start_time)
 
     def sample_translation(self, timestamp: float) -> np.ndarray:
-        start_point, _, start_time, end_time = self.__start_end_point_time(timestamp)
-        if timestamp <= start_time or timestamp >= end_time:
-            return np.array([0, 0.5 * self.__height, 0], np.float64)
-        return start_point + self.sample_velocity(timestamp) * (timestamp - start_time)
+        t = np.clip(timestamp, 0.0, self.__duration)
+        start_point, end_point, start_time, end_time = self.__start_end_point_time(t)
+        return start_point + (end_point - start_point) * (t - start_time) / (end_time - start_time)
 
     def sample_orientation(self, timestamp: float) -> np.ndarray:
         return np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], float)
-- 
2.43.0


From ac200c30b083f0413994be35881a803748b4c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 036/170] fix: do not duplicate the encoders of encoder
 managers handed to modems

---
 hermespy/modem/modem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..d888e4e 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in [] if encoding is None else encoding:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
-- 
2.43.0


From 933c1c7b61218a101a34bfe6c53f0894a075735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 037/170] fix: symbol and signal codings handed to modems

---
 hermespy/modem/modem.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index d888e4e..1df4c32 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -693,18 +693,16 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_symbol_coding = transmit_symbol_coding
         else:
             self.__transmit_symbol_coding = TransmitSymbolCoding()
-        if transmit_symbol_coding is not None:
-            for transmit_symbol_encoder in transmit_symbol_coding:
-                self.__transmit_symbol_coding[-1] = transmit_symbol_encoder
+            for transmit_symbol_encoder in [] if transmit_symbol_coding is None else transmit_symbol_coding:
+                self.__transmit_symbol_coding[len(self.__transmit_symbol_coding)] = transmit_symbol_encoder
 
         # Initialize transmit signal coding configuration
         if isinstance(transmit_signal_coding, TransmitSignalCoding):
             self.__transmit_signal_coding = transmit_signal_coding
         else:
             self.__transmit_signal_coding = TransmitSignalCoding()
-        if transmit_signal_coding is not None:
-            for transmit_signal_encoder in transmit_signal_coding:
-                self.__transmit_signal_coding[-1] = transmit_signal_encoder
+            for transmit_signal_encoder in [] if transmit_signal_coding is None else transmit_signal_coding:
+                self.__transmit_signal_coding[len(self.__transmit_signal_coding)] = transmit_signal_encoder
 
         # Initialize remaining attributes
         self.bits_source = RandomBitsSource() if bits_source is None else bits_source
@@ -1048,18 +1046,16 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_symbol_coding = receive_symbol_coding
         else:
             self.__receive_symbol_coding = ReceiveSymbolCoding()
-        if receive_symbol_coding is not None:
-            for receive_symbol_decoder in receive_symbol_coding:
-                self.__receive_symbol_coding[-1] = receive_symbol_decoder
+            for receive_symbol_decoder in [] if receive_symbol_coding is None else receive_symbol_coding:
+                self.__receive_symbol_coding[len(self.__receive_symbol_coding)] = receive_symbol_decoder
 
         # Initialize receive signal coding configuration
         if isinstance(receive_signal_coding, ReceiveSignalCoding):
             self.__receive_signal_coding = receive_signal_coding
         else:
             self.__receive_signal_coding = ReceiveSignalCoding()
-        if receive_signal_coding is not None:
-            for receive_signal_decoder in receive_signal_coding:
-                self.__receive_signal_coding[-1] = receive_signal_decoder
+            for receive_signal_decoder in [] if receive_signal_coding is None else receive_signal_coding:
+                self.__receive_signal_coding[len(self.__receive_signal_coding)] = receive_signal_decoder
 
     @property
     def receive_signal_coding(self) -> ReceiveSignalCoding:
-- 
2.43.0


From f87b06daefc5c0f42afcb5227ef10e30967207b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 038/170] fix: time stamps of received communication frames

---
 hermespy/modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 1df4c32..b4afb79 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -1248,7 +1248,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     decoded_signal=frame_signal,
                     symbols=symbols,
                     decoded_symbols=decoded_symbols,
-                    timestamp=frame_index * signal.sampling_rate,
+                    timestamp=frame_index / signal.sampling_rate,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
-- 
2.43.0


From ca9b2b1062bc302c05c91b8b11728cdb587162f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 039/170] fix: channel states after selecting the strongest
 stream for any number of transmit streams

---
 hermespy/modem/precoding/single_carrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/precoding/single_carrier.py b/hermespy/modem/precoding/single_carrier.py
index 5287c95..6d57308 100644
--- a/hermespy/modem/precoding/single_carrier.py
+++ b/hermespy/modem/precoding/single_carrier.py
@@ -42,7 +42,7 @@ class SingleCarrier(ReceiveSymbolDecoder, Serializable):
         new_symbols = np.take_along_axis(symbols.raw, antenna_selection[np.newaxis, ::], axis=0)
         # stream_noises = np.take_along_axis(symbols, antenna_selection.T, axis=0)
 
-        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(2, axis=1)
+        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::]
         new_states = np.take_along_axis(dense_states, channel_state_selection, axis=0)
 
         symbols.raw = new_symbols
-- 
2.43.0


From b2bd08cfd8a5a37920f2cee94c339d609f3b26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 040/170] fix: number of blocks resulting from decoding symbols

---
 hermespy/modem/precoding/symbol_precoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/precoding/symbol_precoding.py b/hermespy/modem/precoding/symbol_precoding.py
index 2246002..59c1ff4 100644
--- a/hermespy/modem/precoding/symbol_precoding.py
+++ b/hermespy/modem/precoding/symbol_precoding.py
@@ -216,7 +216,7 @@ class ReceiveSymbolCoding(ReceivePrecoding[ReceiveSymbolDecoder], Serializable):
 
         num_blocks = Fraction(num_input_blocks, 1)
 
-        for precoder in reversed(self):
-            num_blocks /= precoder.decode_rate
+        for precoder in self:
+            num_blocks *= precoder.decode_rate
 
         return int(num_blocks)
-- 
2.43.0


From ad1be140a30b66990447b1fdbfb0de6b37dd09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 041/170] fix: channel states of normalized maximum ratio
 combining estimates

---
 hermespy/modem/precoding/ratio_combining.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/precoding/ratio_combining.py b/hermespy/modem/precoding/ratio_combining.py
index 42f402b..4a36a72 100644
--- a/hermespy/modem/precoding/ratio_combining.py
+++ b/hermespy/modem/precoding/ratio_combining.py
@@ -46,7 +46,8 @@ class MaximumRatioCombining(ReceiveSymbolDecoder, Serializable):
         symbol_estimates = np.sum(simo_states.conj() * symbols_raw, axis=0, keepdims=True) / np.sum(
             np.abs(simo_states) ** 2, axis=0, keepdims=True
         )
-        state_estimates = np.sum(np.abs(dense_states) ** 2, axis=0)
+        # The combined estimates are already normalized by the channel gain
+        state_estimates = np.ones((1, symbols.num_blocks, symbols.num_symbols), dtype=complex)
         # resulting_noises = np.sum(stream_noises * (np.abs(stream_responses) ** 2), axis=0, keepdims=True)
 
         symbol_estimates = symbol_estimates.reshape((1, symbols.num_blocks, symbols.num_symbols))
-- 
2.43.0


From 772ca815ae3df718738e9b932c5eb2d4c8d852e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 042/170] fix: number of frames within durations equal to
 multiples of the frame duration

---
 hermespy/modem/modem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index b4afb79..8985275 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -799,7 +799,8 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             duration = frame_duration
 
         # Compute the number of frames to be transmitted within the given duration
-        num_mimo_frames = int(duration / frame_duration)
+        # The small constant accounts for rounding errors in durations equal to multiples of the frame duration
+        num_mimo_frames = int(duration / frame_duration + 1e-9)
 
         # Compute the number of parallel symbol streams required to transmit over the given coding config
         num_input_signal_streams = self.transmit_signal_coding.num_transmit_input_streams(
-- 
2.43.0


From 2de62e2e96548b25ee21e656e38aa1edaa36948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 043/170] fix: Monte Carlo grid dimensions sorted by impact or
 added to a single simulation

---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From c544c71da096f057bdc104748eb7047974d37024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 044/170] fix: progress of multi-dimensional Monte Carlo
 simulations

---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..b873d50 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[tuple(self.__active_section_coordinates.T)])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 2c65b1cdda25fb2ac2ac87d9bd28d5eabfe5dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 045/170] fix: samples lost when collecting Monte Carlo results

The simulation fetched results as soon as all samples were distributed,
dropping the batches still being computed by actors, and the requests of
the running collector could be processed twice.
---
 hermespy/core/pymonte/actors.py      | 54 ++++++++++++++++++----------
 hermespy/core/pymonte/monte_carlo.py | 10 ++++--
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index b873d50..35dfbb1 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -174,7 +175,8 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__active = True
+        self.__running = Lock()
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
 
     def run(self) -> None:
@@ -183,19 +185,24 @@ class MonteCarloCollector(object):
         This method will block and keep running until :meth:`fetch_results` is called.
         """
 
-        self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
+        with self.__running:
+
+            # Abort if the results have already been fetched
+            if not self.__active:
+                return
 
-        while self.__active:
-            # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+            self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+            while self.__active:
+                # Wait for the next sample to be available
+                ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Process the samples received from the actor
+                self.__process_samples(ready_future, True)
+
+                # Re-queue the request for the next result
+                actor = self.__future_map.pop(ready_future)
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
     def __process_samples(
         self,
@@ -242,12 +249,20 @@ class MonteCarloCollector(object):
         # Stop the collector
         self.__active = False
 
-        # Process the last results within the queue
-        query_futures = list(self.__future_map.keys())
-        futures = wait(query_futures, num_returns=len(query_futures))[0]
+        # Wait for the running collection to stop, its requests must not be processed twice
+        with self.__running:
+
+            # Process the last results within the queue
+            query_futures = list(self.__future_map.keys())
+            futures = wait(query_futures, num_returns=len(query_futures))[0]
+            self.__future_map = {}
 
-        for future in futures:
-            self.__process_samples(future, False)
+            for future in futures:
+                self.__process_samples(future, False)
+
+            # Process the results completed since the last request
+            for actor in self.__actors:
+                self.__process_samples(actor.fetch_results.remote(), False)  # type: ignore[attr-defined]
 
         return self.__results
 
@@ -360,8 +375,11 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        # The actor may be appending results while they are being fetched
+        results: list[ObjectRef[list[MonteCarloSample]]] = []
+        while len(self.__results) > 0:
+            results.append(self.__results.pop(0))
+
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..55e3d68 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -382,8 +382,7 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            actor_runs = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
             _ = collector.run.remote()  # type: ignore
@@ -406,6 +405,10 @@ class MonteCarlo(Generic[MO]):
                 # Fetch a progress estimate from the queue manager
                 queue_progress, active_map = ray.get(queue_manager.query_progress.remote())  # type: ignore
 
+                # Abort if no actor is left to compute samples
+                if len(ray.wait(actor_runs, num_returns=len(actor_runs), timeout=0)[1]) < 1:
+                    break
+
                 # Update progress bar visualization
                 if self.__console_mode == ConsoleMode.INTERACTIVE:
 
@@ -471,6 +474,9 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # Wait until all actors finished computing the samples distributed to them
+            ray.get(actor_runs)
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
         # Measure elapsed time
-- 
2.43.0


From dd797a497d16eacbdc6d35a6bbff42ccbd562165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 046/170] fix: Monte Carlo sections disabled before all
 evaluators are confident

---
 hermespy/core/pymonte/actors.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 35dfbb1..d440edf 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -175,6 +175,7 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
+        self.__confident_evaluators: dict[tuple[int, ...], set[int]] = {}
         self.__active = True
         self.__running = Lock()
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
@@ -222,14 +223,22 @@ class MonteCarloCollector(object):
                 section_coordinates = sample.grid_section
 
                 # Update all evaluation results with their respective sample artifacts
-                for evaluation_result, artifact in zip(self.__results, sample.artifacts):
+                for e, (evaluation_result, artifact) in enumerate(
+                    zip(self.__results, sample.artifacts)
+                ):
                     confident = evaluation_result.add_artifact(
                         section_coordinates, artifact, compute_confidence
                     )
 
-                    # If the confidence threshold is reached, disable the section
+                    # If all evaluators reached their confidence threshold, disable the section
                     if compute_confidence and confident:
-                        self.__queue_manager.disable_section.remote(section_coordinates)  # type: ignore[attr-defined]
+                        confident_evaluators = self.__confident_evaluators.setdefault(
+                            tuple(section_coordinates), set()
+                        )
+                        confident_evaluators.add(e)
+
+                        if len(confident_evaluators) >= len(self.__results):
+                            self.__queue_manager.disable_section.remote(section_coordinates)  # type: ignore[attr-defined]
 
     def query_estimates(self) -> list[None | np.ndarray]:
         """Query intermediate estimates during simulation runtime.
-- 
2.43.0


From 84a6e47bb8e563bae521e0f135fafd07483cdd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 047/170] fix: configured Monte Carlo batch size ignored during
 simulation

---
 hermespy/core/pymonte/monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 55e3d68..65ae02d 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(_dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples, _batch_size if self.__batch_size is not None else None)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
-- 
2.43.0


From b65050afa90cee0109b51ffbadfb3707ae64f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 048/170] fix: performance time of Monte Carlo results

---
 hermespy/core/pymonte/monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 65ae02d..dba23b2 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -485,7 +485,7 @@ class MonteCarlo(Generic[MO]):
 
         # Compute the final result
         simulation_result = MonteCarloResult(
-            _dimensions, self.__evaluators, evaluation_results, 0.0
+            _dimensions, self.__evaluators, evaluation_results, performance_time
         )
 
         # Print results
-- 
2.43.0


From 4d528f527a9f9b1088ee87e025fd739fb88a3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 049/170] fix: Monte Carlo sample points exported to Matlab

---
 hermespy/core/pymonte/monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index dba23b2..1ba1775 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -100,7 +100,7 @@ class MonteCarloResult(object):
             mat_dict[f"result_{r}"] = result.to_array()
 
         for dimension in self.__grid:
-            mat_dict[dimension.title] = dimension.sample_points
+            mat_dict[dimension.title] = [point.value for point in dimension.sample_points]
 
         # Save results in matlab file
         savemat(file, mat_dict)
-- 
2.43.0


From c968315d482aa63faeb5fac34c39ac7d2950bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 050/170] fix: printed Monte Carlo results lack all grid
 sections

---
 hermespy/core/pymonte/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/core/pymonte/evaluation.py b/hermespy/core/pymonte/evaluation.py
index a1635f0..d919ef7 100644
--- a/hermespy/core/pymonte/evaluation.py
+++ b/hermespy/core/pymonte/evaluation.py
@@ -198,6 +198,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
         for grid_section in np.ndindex(*[d.num_sample_points for d in self.grid]):
             columns = [g.sample_points[s].title for s, g in zip(grid_section, self.grid)]
             columns.append(self.to_str(grid_section))
+            table.add_row(*columns)
 
         _console.print(table)
 
-- 
2.43.0


From 2c14c0db989ac80432b8021a0f7551129cd5449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 051/170] fix: Monte Carlo results plotted over base dimensions
 other than the first

---
 hermespy/core/pymonte/evaluation.py | 10 +++++-----
 hermespy/core/pymonte/scalar.py     |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/pymonte/evaluation.py b/hermespy/core/pymonte/evaluation.py
index d919ef7..50382a7 100644
--- a/hermespy/core/pymonte/evaluation.py
+++ b/hermespy/core/pymonte/evaluation.py
@@ -275,8 +275,8 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
         if len(self.grid) < 1:
             return []
 
-        # For now, the x-dimension will always be the first simulation iteration dimension
-        x_dimension = 0
+        # The x-dimension is the configured base dimension
+        x_dimension = self.base_dimension_index
         x_points = np.asarray([s.value for s in self.grid[x_dimension].sample_points])
 
         # Configure axes labels
@@ -302,7 +302,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
             # Generate the graph line label
             line_label = ""
             for i, v in enumerate(section_indices):
-                line_label += f"{self.grid[i+1].title} = {self.grid[i+1].sample_points[v].title}, "
+                line_label += f"{subgrid[i].title} = {subgrid[i].sample_points[v].title}, "
             line_label = line_label[:-2]
 
             if len(line_label) < 1:
@@ -330,7 +330,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
             visualization: Visualization to plot into.
         """
 
-        x_dimension = 0
+        x_dimension = self.base_dimension_index
         subgrid = list(self.grid).copy()
         del subgrid[x_dimension]
 
@@ -340,7 +340,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
             # Generate the graph line label
             line_label = ""
             for i, v in enumerate(section_indices):
-                line_label += f"{self.grid[i+1].title} = {self.grid[i+1].sample_points[v].title}, "
+                line_label += f"{subgrid[i].title} = {subgrid[i].sample_points[v].title}, "
             line_label = line_label[:-2]
 
             if len(line_label) < 1:
diff --git a/hermespy/core/pymonte/scalar.py b/hermespy/core/pymonte/scalar.py
index 6ca7d85..536ac86 100644
--- a/hermespy/core/pymonte/scalar.py
+++ b/hermespy/core/pymonte/scalar.py
@@ -173,7 +173,7 @@ class ScalarEvaluationResult(EvaluationResult):
         scalars = np.moveaxis(self.to_array(), self.base_dimension_index, 0)
 
         if len(grid) == 2 and self.plot_surface:
-            return self._update_surface_visualization(scalars, visualization)
+            return self._update_surface_visualization(self.to_array(), visualization)
 
         # Multiple dimensions, resort to legend-based multiplots
         else:
-- 
2.43.0


From aeb309ae249ae78209b3f1eb380469b52e319aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 052/170] fix: resampling of short signals and signal blocks

---
 hermespy/core/signal_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index b155e8d..860aee8 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -559,7 +559,8 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         # If decimation is possible, simply decimate the samples
         if sampling_rate_new < sampling_rate_old:
             decimation = sampling_rate_old / sampling_rate_new
-            if decimation % 1.0 == 0.0:
+            # Note that decimation filters require a minimum number of samples
+            if decimation % 1.0 == 0.0 and self.num_samples > 27:
                 samples_new = decimate(samples_new, int(decimation), axis=1)
                 off_new = round(self.offset * sampling_rate_new / sampling_rate_old)
                 return SignalBlock(
@@ -667,7 +668,10 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         """
 
         aliasing_filter = butter(N, Wn, btype="low", output="sos")
-        return sosfiltfilt(aliasing_filter, samples, axis=1)
+
+        # The filter padding may not exceed the number of available samples
+        padding = min(3 * (2 * aliasing_filter.shape[0] + 1), samples.shape[1] - 1)
+        return sosfiltfilt(aliasing_filter, samples, axis=1, padlen=padding)
 
     @staticmethod
     @jit(nopython=True)
-- 
2.43.0


From f854345405deeb2fe1bcbc0ff9dff1430caf688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 053/170] fix: keep the offset of single signal blocks

---
 hermespy/core/signal_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 860aee8..ce5669d 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -899,7 +899,9 @@ class Signal(ABC, Iterable, Serializable):
             SparseSignal if samples argument is a list of ndarrays. DenseSignal otherwise.
         """
 
-        if isinstance(samples, Sequence) and len(samples) != 1:
+        if isinstance(samples, Sequence) and (
+            len(samples) != 1 or getattr(samples[0], "offset", 0) > 0
+        ):
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
-- 
2.43.0


From 27aa8b1ba7064c195d5f30ef407d0822ce45c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 054/170] fix: consistent decibel values of logarithmic
 sequences

---
 hermespy/core/logarithmic.py | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/hermespy/core/logarithmic.py b/hermespy/core/logarithmic.py
index 5784f7f..8ca86c5 100644
--- a/hermespy/core/logarithmic.py
+++ b/hermespy/core/logarithmic.py
@@ -253,7 +253,6 @@ class Logarithmic(float):
 class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
     """A sequence of logarithmic numbers."""
 
-    __values_db: list[float]
     __conversion: DbConversionType
 
     def __new__(
@@ -300,21 +299,11 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         if instance is None:
             return  # pragma: no cover
 
-        # Convert view
-        view = self.view(np.ndarray).flatten()
-
-        # Abort if a numpy boolean array is represented
-        # This is required to work around a strange bug in assert_array_almost_equal
-        if not issubclass(view.dtype.type, np.floating) or self.ndim < 1:
-            np.ndarray.__array_finalize__(self, instance)
-            return
-
         # Recover initialization attributes
         conversion = getattr(instance, "conversion", DbConversionType.POWER)
 
         # Configure class atributes
         self.__conversion = conversion
-        self.__values_db = [lin2db(float(value), conversion) for value in view]
 
     @property
     def conversion(self) -> DbConversionType:
@@ -333,30 +322,16 @@ class LogarithmicSequence(np.ndarray[tuple[int], np.dtype[np.float64]]):
         """
 
         return [
-            Logarithmic.From_Tuple(lin, log, self.conversion)
-            for lin, log in zip(self.view(np.ndarray), self.__values_db)
+            Logarithmic(value, ValueType.LIN, self.conversion) for value in self.view(np.ndarray)
         ]
 
     @override
     def __getitem__(self, i: SupportsIndex) -> Logarithmic | np.ndarray:  # type: ignore[override]
         if isinstance(i, (int, np.integer)):
-            return Logarithmic.From_Tuple(
-                np.ndarray.__getitem__(self, i), self.__values_db[i], self.conversion
-            )
+            return Logarithmic(np.ndarray.__getitem__(self, i), ValueType.LIN, self.conversion)
 
         return np.ndarray.__getitem__(self, i)
 
-    @override
-    def __setitem__(self, i: SupportsIndex, item: Logarithmic | float | int) -> None:  # type: ignore[override]
-        # Convert non-logarithmic items to logarithmic
-        if isinstance(item, Logarithmic):
-            np.ndarray.__setitem__(self, i, float(item))
-            self.__values_db[i] = item.value_db
-
-        else:
-            np.ndarray.__setitem__(self, i, item)
-            self.__values_db[i] = lin2db(item, self.conversion)
-
     def __reduce__(
         self,
     ) -> tuple[Type[LogarithmicSequence], tuple[np.ndarray, ValueType, DbConversionType]]:
-- 
2.43.0


From cdc95d8dd7ffbf166f744c4bb4660a73cb1f9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 055/170] fix: linear transformation, conversion and slicing of
 channel state information

---
 hermespy/core/channel.py | 67 ++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/hermespy/core/channel.py b/hermespy/core/channel.py
index e703ddd..51bb531 100644
--- a/hermespy/core/channel.py
+++ b/hermespy/core/channel.py
@@ -213,8 +213,9 @@ class ChannelStateInformation(Serializable):
         """
 
         if self.__state_format == ChannelStateFormat.FREQUENCY_SELECTIVITY:
-            self.__state = ifft(self.__state, axis=3)
+            self.__state = ifft(self.dense_state(), axis=3)
             self.__state_format = ChannelStateFormat.IMPULSE_RESPONSE
+            self.__num_delay_taps = self.__state.shape[3]
 
         return self
 
@@ -241,7 +242,7 @@ class ChannelStateInformation(Serializable):
             else:
                 self.__num_frequency_bins = num_bins
 
-            self.__state = fft(self.dense_state()[:, :, :num_bins, :], axis=3, n=num_bins)
+            self.__state = fft(self.dense_state(), axis=3, n=num_bins)
 
             self.__state_format = ChannelStateFormat.FREQUENCY_SELECTIVITY
 
@@ -332,13 +333,13 @@ class ChannelStateInformation(Serializable):
 
         coordinates = [
             rx_ids.repeat(num_tx * num_taps * num_in),
-            tx_ids.repeat(num_rx * num_taps * num_in).reshape((num_tx, -1), order="F").flatten(),
+            np.tile(tx_ids.repeat(num_taps * num_in), num_rx),
             np.tile(out_ids, num_rx * num_tx),
             np.tile(in_ids, num_rx * num_tx),
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_out, num_in)
+            coordinates, self.dense_state().flatten(), shape=(num_rx, num_tx, num_out, num_in)
         )
         return transformation
 
@@ -364,14 +365,15 @@ class ChannelStateInformation(Serializable):
 
         coordinates = [
             rx_ids.repeat(num_tx * num_symbols),
-            # ToDo: This is probably not completely correct
             np.tile(tx_ids.repeat(num_symbols), num_rx),
             np.tile(diagonal_ids, num_rx * num_tx),
             np.tile(diagonal_ids, num_rx * num_tx),
         ]
 
         transformation = COO(
-            coordinates, self.__state.flatten(), shape=(num_rx, num_tx, num_symbols, num_symbols)
+            coordinates,
+            self.dense_state().flatten(),
+            shape=(num_rx, num_tx, num_symbols, num_symbols),
         )
         return transformation
 
@@ -405,7 +407,12 @@ class ChannelStateInformation(Serializable):
         """
 
         for received_stream in self.__state:
-            yield ChannelStateInformation(self.__state_format, received_stream[np.newaxis, ...])
+            yield ChannelStateInformation(
+                self.__state_format,
+                received_stream[np.newaxis, ...],
+                self.__num_delay_taps,
+                self.__num_frequency_bins,
+            )
 
     def samples(self) -> Generator[ChannelStateInformation, ChannelStateInformation, None]:
         """Iterate over the sample slices within this channel state.
@@ -432,18 +439,25 @@ class ChannelStateInformation(Serializable):
         Returns: New channel state with a section according to `value` slice.
         """
 
-        state_section = self.__state[section]
+        # Preserve the dimensions selected by integer indices
+        sections = section if isinstance(section, tuple) else (section,)
+        state_section = self.__state[
+            tuple(
+                slice(sec, sec + 1 if sec != -1 else None) if isinstance(sec, (int, np.integer)) else sec
+                for sec in sections
+            )
+        ]
+
+        if state_section.shape[3] == self.__state.shape[3]:
+            num_delay_taps, num_frequency_bins = self.__num_delay_taps, self.__num_frequency_bins
 
-        for s, sec in enumerate(section):  # type: ignore
-            if isinstance(sec, int):
-                state_section = np.expand_dims(state_section, axis=s)
+        else:
+            num_delay_taps, num_frequency_bins = None, None
 
-        num_delay_taps = (
-            self.__num_delay_taps if state_section.shape[3] == self.__state.shape[3] else None
+        return ChannelStateInformation(
+            self.__state_format, state_section, num_delay_taps, num_frequency_bins
         )
 
-        return ChannelStateInformation(self.__state_format, state_section, num_delay_taps)
-
     def __setitem__(
         self,
         key: SupportsIndex | slice | Tuple[SupportsIndex | slice, ...],
@@ -475,9 +489,16 @@ class ChannelStateInformation(Serializable):
         state_format = (
             elements[0].__state_format if len(elements) > 0 else ChannelStateFormat.IMPULSE_RESPONSE
         )
-        num_delay_taps = elements[0].__num_delay_taps if len(elements) > 0 else None
 
-        return ChannelStateInformation(state_format, stack, num_delay_taps)
+        # Stacking over the information dimension changes the number of delay taps and frequency bins
+        if len(elements) > 0 and dimension != ChannelStateDimension.INFORMATION:
+            num_delay_taps = elements[0].__num_delay_taps
+            num_frequency_bins = elements[0].__num_frequency_bins
+
+        else:
+            num_delay_taps, num_frequency_bins = None, None
+
+        return ChannelStateInformation(state_format, stack, num_delay_taps, num_frequency_bins)
 
     def plot(self) -> None:
         """Visualize the internal channel state information.
@@ -503,7 +524,11 @@ class ChannelStateInformation(Serializable):
         """
 
         # Make sure the accessed state is in impulse response format
-        state = self.to_impulse_response().dense_state()
+        if self.__state_format == ChannelStateFormat.FREQUENCY_SELECTIVITY:
+            state = ifft(self.dense_state(), axis=3)
+        else:
+            state = self.dense_state()
+
         _signal = signal.view(np.ndarray)
 
         # Propagate the signal
@@ -541,6 +566,8 @@ class ChannelStateInformation(Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.__state_format.value, "state_format")
         process.serialize_array(self.dense_state(), "state", cache=False)
+        process.serialize_integer(self.__num_delay_taps, "num_delay_taps")
+        process.serialize_integer(self.__num_frequency_bins, "num_frequency_bins")
 
     @classmethod
     def Deserialize(
@@ -548,4 +575,6 @@ class ChannelStateInformation(Serializable):
     ) -> ChannelStateInformation:
         state_format = ChannelStateFormat(process.deserialize_integer("state_format"))
         state = process.deserialize_array("state", np.complex128)
-        return cls(state_format, state)
+        num_delay_taps = process.deserialize_integer("num_delay_taps", state.shape[3])
+        num_frequency_bins = process.deserialize_integer("num_frequency_bins", state.shape[3])
+        return cls(state_format, state, num_delay_taps, num_frequency_bins)
-- 
2.43.0


From 90d8e00e9465c6bd14609c1f26f1f1140b130699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 056/170] fix: ideal channel propagation scales the propagated
 signal in place

---
 hermespy/channel/ideal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..674fd19 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -112,7 +112,7 @@ class IdealChannelSample(ChannelSample):
                 )
 
         # Apply channel gain
-        propagated_samples *= np.sqrt(self.__gain)
+        propagated_samples = propagated_samples * np.sqrt(self.__gain)
         return SignalBlock(
             self.num_receive_antennas,
             signal.num_samples,
-- 
2.43.0


From 279213d5fd6c158cce189e0059f24d2c0377572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 057/170] fix: keyword arguments of channel sampling

---
 hermespy/channel/channel.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..0a50fde 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -532,12 +532,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         transmitter: SimulatedDevice | SimulatedDeviceState,
         receiver: SimulatedDevice | SimulatedDeviceState,
         timestamp: float = 0.0,
-        *args,
-        **kwargs,
+        carrier_frequency: float | None = None,
+        bandwidth: float | None = None,
     ) -> CST:
-        carrier_frequency = float(args[0]) if len(args) > 0 else None
-        bandwidth = float(args[1]) if len(args) > 1 else None
-
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
@@ -649,6 +646,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         *args,
         **kwargs,
     ) -> CST:
+        def argument(position: int, name: str) -> float | None:
+            return args[position] if len(args) > position else kwargs.get(name, None)
+
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
         # Type hinting, required for proper type checking
@@ -656,9 +656,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         receiver_device: SimulatedDevice | int
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
-            timestamp = float(args[0]) if len(args) > 0 else 0.0
-            carrier_frequency = float(args[1]) if len(args) > 1 else None
-            bandwidth = float(args[2]) if len(args) > 2 else None
+            timestamp = float(args[0]) if len(args) > 0 else float(kwargs.get("timestamp", 0.0))
+            carrier_frequency = argument(1, "carrier_frequency")
+            bandwidth = argument(2, "bandwidth")
 
             transmitter_device = transmitter
             receiver_device = receiver
@@ -669,8 +669,8 @@ class ChannelRealization(Serializable, Generic[CST]):
             receiver, SimulatedDeviceState
         ):
             timestamp = sample.time
-            carrier_frequency = float(args[0]) if len(args) > 0 else None
-            bandwidth = float(args[1]) if len(args) > 1 else None
+            carrier_frequency = argument(0, "carrier_frequency")
+            bandwidth = argument(1, "bandwidth")
 
             transmitter_device = transmitter.device_id
             receiver_device = receiver.device_id
-- 
2.43.0


From 12eadc195f243dcf357b2eecdd1e9735fd4cd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 058/170] fix: superimpose signal blocks overlapping after
 channel propagation

---
 hermespy/channel/channel.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index 0a50fde..eecea3f 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -367,7 +367,34 @@ class ChannelSample(object):
             )
 
         # Propagate each signal block
-        propagated_blocks = [self._propagate(b, interpolation_mode) for b in _signal.blocks]
+        propagated_blocks: list[SignalBlock] = []
+        for block in _signal.blocks:
+            propagated_block = self._propagate(block, interpolation_mode)
+
+            # Superimpose blocks overlapping after propagation
+            while (
+                len(propagated_blocks) > 0 and propagated_block.offset < propagated_blocks[-1].end
+            ):
+                previous_block = propagated_blocks.pop()
+                offset = min(previous_block.offset, propagated_block.offset)
+                superposition = np.zeros(
+                    (
+                        propagated_block.num_streams,
+                        max(previous_block.end, propagated_block.end) - offset,
+                    ),
+                    dtype=np.complex128,
+                )
+                for b in (previous_block, propagated_block):
+                    superposition[:, b.offset - offset : b.end - offset] += b.view(np.ndarray)
+                propagated_block = SignalBlock(
+                    propagated_block.num_streams,
+                    superposition.shape[1],
+                    offset,
+                    superposition.tobytes(),
+                )
+
+            propagated_blocks.append(propagated_block)
+
         block_offsets = [b.offset for b in propagated_blocks]
         return Signal.Create(
             propagated_blocks,
-- 
2.43.0


From a279bdfd6237fb5f657d8cdba7f87c7ea787445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 059/170] fix: delay channels apply their linear power gain as
 an amplitude factor

---
 hermespy/channel/delay/delay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/delay/delay.py b/hermespy/channel/delay/delay.py
index ce0496f..1b955a0 100644
--- a/hermespy/channel/delay/delay.py
+++ b/hermespy/channel/delay/delay.py
@@ -74,7 +74,7 @@ class DelayChannelSample(ChannelSample):
 
     @property
     def expected_energy_scale(self) -> float:
-        return self.__path_gain(self.carrier_frequency)
+        return self.__path_gain(self.carrier_frequency) ** 2
 
     def __spatial_response(self) -> np.ndarray:
 
@@ -108,7 +108,7 @@ class DelayChannelSample(ChannelSample):
         Returns: Linear path gain scaling the amplitude of a propagated signal.
         """
 
-        gain_factor = self.gain
+        gain_factor = np.sqrt(self.gain)
 
         if self.model_propagation_loss:
             if carrier_frequency == 0.0:
-- 
2.43.0


From 70ff2edcb2d6befc98460dbefe3687e79cc64958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 060/170] fix: channel state of multipath fading samples

---
 hermespy/channel/fading/fading.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..9abd7a6 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -348,19 +348,22 @@ class MultipathFadingSample(ChannelSample):
         max_num_taps: int,
         interpolation_mode: InterpolationMode = InterpolationMode.NEAREST,
     ) -> ChannelStateInformation:
-        num_taps = min(1 + round(self.__max_delay * self.bandwidth), max_num_taps)
+        num_taps = min(1 + int(np.rint(self.__max_delay * self.bandwidth)), max_num_taps)
         siso_csi = np.zeros((num_samples, num_taps), dtype=np.complex128)
         for path_impulse, path_delay_samples in self.__path_impulse_generator(num_samples):
             # Skip paths with delays larger than the maximum delay required by the CSI request
-            if path_delay_samples > num_taps:
+            if path_delay_samples >= num_taps:
                 continue
 
             siso_csi[:, path_delay_samples] += path_impulse
 
         # For the multipath fading model, the MIMO CSI is the outer product of the SISO CSI with the spatial response
         # The resulting multidimensional array is sparse in its fourth dimension and converted to a GCXS array for memory efficiency
+        spatial_response = self.spatial_response[
+            : self.num_receive_antennas, : self.num_transmit_antennas
+        ]
         mimo_csi = GCXS.from_numpy(
-            np.einsum("ij,kl->ijkl", self.spatial_response, siso_csi), compressed_axes=(0, 1, 2)
+            np.einsum("ij,kl->ijkl", spatial_response, siso_csi), compressed_axes=(0, 1, 2)
         )
 
         state = ChannelStateInformation(
-- 
2.43.0


From e2699f2f0973e914ca3cf11203eb2c0d0109baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 061/170] fix: antenna correlations of devices with dedicated
 transmit and receive antennas

---
 hermespy/channel/fading/fading.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 9abd7a6..f427052 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -481,11 +481,13 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
         )[: state.receiver.antennas.num_antennas, : state.transmitter.antennas.num_antennas]
 
         if self.__antenna_correlation is not None:
-            spatial_response = (
+            num_rx = state.receiver.antennas.num_receive_antennas
+            num_tx = state.transmitter.antennas.num_transmit_antennas
+            spatial_response[:num_rx, :num_tx] = (
                 self.__antenna_correlation.sample_covariance(
                     state.receiver.antennas, AntennaMode.RX
                 )
-                @ spatial_response
+                @ spatial_response[:num_rx, :num_tx]
                 @ self.__antenna_correlation.sample_covariance(
                     state.transmitter.antennas, AntennaMode.TX
                 )
-- 
2.43.0


From a8187912a8248ff7dfe5f7884b42e6b69e36c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 062/170] fix: doppler phase of offset signal blocks in
 multipath fading channels

---
 hermespy/channel/fading/fading.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index f427052..0d2fdd2 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -291,14 +291,14 @@ class MultipathFadingSample(ChannelSample):
         return self.gain * np.sum(self.power_profile)
 
     def __path_impulse_generator(
-        self, num_samples: int
+        self, num_samples: int, offset: int = 0
     ) -> Generator[Tuple[np.ndarray, int], None, None]:
 
         path_delay_samples = np.rint(self.delay_profile * self.bandwidth).astype(int)
 
         num_sinusoids = self.__nlos_angles.shape[1]
         n = 1 + np.arange(num_sinusoids)
-        timestamps = np.arange(num_samples) / self.bandwidth
+        timestamps = (offset + np.arange(num_samples)) / self.bandwidth
 
         nlos_time = self.nlos_doppler * timestamps
         los_time = self.los_doppler * timestamps
@@ -386,7 +386,7 @@ class MultipathFadingSample(ChannelSample):
                 (_spatial_response.shape[1], num_propagated_samples), dtype=np.complex128
             )
             for path_impulse, path_num_delay_samples in self.__path_impulse_generator(
-                signal.num_samples
+                signal.num_samples, signal.offset
             ):
                 propagated_samples[
                     :, path_num_delay_samples : path_num_delay_samples + signal.num_samples
-- 
2.43.0


From 037610824394d60db48d947ab0b9b52f1f0aa4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 063/170] fix: line of sight angle and number of sinusoids of
 multipath fading channels

---
 hermespy/channel/fading/cost259.py     |  5 ++-
 hermespy/channel/fading/exponential.py |  5 ++-
 hermespy/channel/fading/fading.py      | 54 +++++++++++++++++---------
 hermespy/channel/fading/tdl.py         |  5 ++-
 4 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index b9fe1aa..d3d6819 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -240,7 +240,8 @@ class Cost259(MultipathFadingChannel):
         process.serialize_object(self.model_type, "model_type")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -256,7 +257,7 @@ class Cost259(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/exponential.py b/hermespy/channel/fading/exponential.py
index ae91f85..e3857bf 100644
--- a/hermespy/channel/fading/exponential.py
+++ b/hermespy/channel/fading/exponential.py
@@ -140,7 +140,8 @@ class Exponential(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -157,7 +158,7 @@ class Exponential(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 0d2fdd2..43f445c 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -568,10 +568,17 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        # The line of sight angles are either constant or a random variable
+        los_angles_variable = process.deserialize_floating("los_angles_variable", None)
+        if los_angles_variable is None:
+            los_angles_variable = process.deserialize_object(
+                "los_angles_variable", ConsistentUniform
+            )
+
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            los_angles_variable,
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -715,7 +722,7 @@ class MultipathFadingChannel(
         self.__power_profile = self.__power_profile[sorting]
         self.__rice_factors = self.__rice_factors[sorting]
         self.__num_sinusoids = num_sinusoids
-        self.los_angle = self._rng.uniform(-pi, pi) if los_angle is None else los_angle
+        self.los_angle = los_angle
         self.doppler_frequency = doppler_frequency
         self.__los_doppler_frequency = los_doppler_frequency
 
@@ -723,33 +730,35 @@ class MultipathFadingChannel(
         self.__max_delay = max(self.__delays)
         self.__num_resolvable_paths = len(self.__delays)
 
+        # Update correlations (required here to break dependency cycle during init)
+        self.antenna_correlation = antenna_correlation
+        self.correlation_distance = correlation_distance
+
+        # Initialize the path gains and random variables
+        self.__update_paths()
+
+    def __update_paths(self) -> None:
+        """Update the path gains and random variables depending on the number of sinusoids."""
+
         rice_inf_pos = np.isposinf(self.__rice_factors)
         rice_num_pos = np.invert(rice_inf_pos)
         self.__los_gains = np.empty(self.num_resolvable_paths, dtype=float)
-        self.__non_los_gains = np.empty(self.num_resolvable_paths, dtype=float)
+        self.__non_los_gains = np.zeros(self.num_resolvable_paths, dtype=float)
 
         self.__los_gains[rice_inf_pos] = 1.0
         self.__los_gains[rice_num_pos] = np.sqrt(
             self.__rice_factors[rice_num_pos] / (1 + self.__rice_factors[rice_num_pos])
         )
-        self.__non_los_gains[rice_num_pos] = np.sqrt(
-            1 / ((1 + self.__rice_factors[rice_num_pos]) * self.__num_sinusoids)
-        )
-        self.__non_los_gains[rice_inf_pos] = 0.0
-
-        # Update correlations (required here to break dependency cycle during init)
-        self.antenna_correlation = antenna_correlation
-        self.correlation_distance = correlation_distance
+        if self.__num_sinusoids > 0:
+            self.__non_los_gains[rice_num_pos] = np.sqrt(
+                1 / ((1 + self.__rice_factors[rice_num_pos]) * self.__num_sinusoids)
+            )
 
         self.__rng = ConsistentGenerator(self)
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
         self.__antenna_correlation_variable = self.__rng.uniform((10, 10))
-        self.__los_angles_variable = (
-            self.__rng.uniform((self.__num_resolvable_paths,))
-            if self.__los_angle is not None
-            else self.__los_angle
-        )
+        self.__los_angles_variable = self.__rng.uniform((self.num_resolvable_paths,))
         self.__nlos_angles_variable = self.__rng.uniform(
             (self.num_resolvable_paths, self.__num_sinusoids)
         )
@@ -881,6 +890,7 @@ class MultipathFadingChannel(
             raise ValueError("Number of sinusoids must be greater or equal to zero")
 
         self.__num_sinusoids = num
+        self.__update_paths()
 
     @property
     def los_angle(self) -> float | None:
@@ -899,7 +909,7 @@ class MultipathFadingChannel(
         return MultipathFadingRealization(
             self.__rng.realize(self.correlation_distance),
             self.__antenna_correlation_variable,
-            self.__los_angles_variable,
+            self.__los_angles_variable if self.los_angle is None else float(self.los_angle),
             self.__nlos_angles_variable,
             self.__los_phases_variable,
             self.__nlos_phases_variable,
@@ -940,7 +950,10 @@ class MultipathFadingChannel(
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
+        if self.__los_doppler_frequency is not None:
+            process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -963,7 +976,10 @@ class MultipathFadingChannel(
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
-                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency"),
+                "los_angle": process.deserialize_floating("los_angle", None),
+                "los_doppler_frequency": process.deserialize_floating(
+                    "los_doppler_frequency", None
+                ),
                 "antenna_correlation": process.deserialize_object(
                     "antenna_correlation", AntennaCorrelation, None
                 ),
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8716f6a..7fe995d 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -414,7 +414,8 @@ class TDL(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -431,7 +432,7 @@ class TDL(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-- 
2.43.0


From b6b32ca3bf416cea1a2cd3be6b51c56ad1b76146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 064/170] fix: rice factors and line of sight doppler of 5G TDL
 models D and E

---
 hermespy/channel/fading/tdl.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 7fe995d..966c7cb 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -6,6 +6,7 @@ from typing_extensions import override
 import numpy as np
 
 from hermespy.core import DeserializationProcess, SerializableEnum, SerializationProcess
+from hermespy.tools import db2lin
 from .fading import AntennaCorrelation, MultipathFadingChannel
 from ..channel import Channel
 
@@ -302,7 +303,7 @@ class TDL(MultipathFadingChannel):
             )
             power_db = np.array(
                 [
-                    -13.5,
+                    0.0,
                     -18.8,
                     -21,
                     -22.8,
@@ -318,8 +319,7 @@ class TDL(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.zeros(normalized_delays.shape)
-            rice_factors[0] = 13.3
-            los_doppler_frequency = 0.7
+            rice_factors[0] = db2lin(13.3)
 
         # ETSI TR 38.900 Table 7.7.2-5: 5G TDL-E
         elif model_type == TDLType.E:
@@ -348,7 +348,7 @@ class TDL(MultipathFadingChannel):
             )
             power_db = np.array(
                 [
-                    -22.03,
+                    0.0,
                     -15.8,
                     -18.1,
                     -19.8,
@@ -365,8 +365,7 @@ class TDL(MultipathFadingChannel):
                 ]
             )
             rice_factors = np.zeros(normalized_delays.shape)
-            rice_factors[0] = 22
-            los_doppler_frequency = 0.7
+            rice_factors[0] = db2lin(22.0)
 
         else:
             raise ValueError("Requested model type not supported")
@@ -408,6 +407,24 @@ class TDL(MultipathFadingChannel):
 
         return self.__rms_delay
 
+    @property
+    @override
+    def los_doppler_frequency(self) -> float:
+        # The line of sight doppler of model types D and E is fixed by the standard
+        if self.model_type in (TDLType.D, TDLType.E):
+            return 0.7 * self.doppler_frequency
+
+        return MultipathFadingChannel.los_doppler_frequency.fget(self)  # type: ignore[attr-defined]
+
+    @los_doppler_frequency.setter
+    def los_doppler_frequency(self, frequency: float | None) -> None:
+        if frequency is not None and self.model_type in (TDLType.D, TDLType.E):
+            raise ValueError(
+                f"Model type {self.model_type.name} does not support line of sight doppler frequency configuration"
+            )
+
+        MultipathFadingChannel.los_doppler_frequency.fset(self, frequency)  # type: ignore[attr-defined]
+
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.model_type, "model_type")
@@ -417,7 +434,8 @@ class TDL(MultipathFadingChannel):
         if self.los_angle is not None:
             process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
+        if self.model_type not in (TDLType.D, TDLType.E):
+            process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -436,7 +454,7 @@ class TDL(MultipathFadingChannel):
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
+            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency", None),
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
-- 
2.43.0


From 7f1227b1798a36afb8189327352556008ffb2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 065/170] fix: radar interference of devices with dedicated
 transmit and receive antennas

---
 hermespy/channel/radar/radar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 90ee65a..98fec6d 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -635,10 +635,10 @@ class RadarInterferencePath(RadarPath):
     ) -> np.ndarray:
         # Model the sensor arrays' spatial responses
         rx_response = receiver.antennas.cartesian_array_response(
-            carrier_frequency, transmitter.position, "global"
+            carrier_frequency, transmitter.position, "global", AntennaMode.RX
         )
         tx_response = transmitter.antennas.cartesian_array_response(
-            carrier_frequency, receiver.position, "global"
+            carrier_frequency, receiver.position, "global", AntennaMode.TX
         )
 
         if self.attenuate:
-- 
2.43.0


From 2545fb89cb28dcb4c6d7bb8e2c4b4556a56d91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 066/170] fix: sign of the radar interference's doppler shift

---
 hermespy/channel/radar/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 98fec6d..95a2532 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -626,7 +626,7 @@ class RadarInterferencePath(RadarPath):
 
     def relative_velocity(self, transmitter: DeviceState, receiver: DeviceState) -> float:
         connection = Direction.From_Cartesian(
-            receiver.position - transmitter.position, normalize=True
+            transmitter.position - receiver.position, normalize=True
         ).view(np.ndarray)
         return np.dot(transmitter.velocity - receiver.velocity, connection)
 
-- 
2.43.0


From 85da11cafa01094b08d46cdb35f21f32c4de3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 067/170] fix: timing of radar channel samples

---
 hermespy/channel/radar/radar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 95a2532..07d1c0e 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -120,7 +120,7 @@ class RadarChannelSample(ChannelSample):
                 signal,
                 self.bandwidth,
                 self.carrier_frequency,
-                self.time,
+                self.time + signal.offset / self.bandwidth,
                 propagated_samples,
                 delay,
                 velocity,
@@ -189,7 +189,7 @@ class RadarChannelSample(ChannelSample):
                 self.receiver_state,
                 self.carrier_frequency,
                 self.bandwidth,
-                0.0,
+                self.time,
             ),
         )
 
@@ -427,7 +427,7 @@ class RadarPath(Serializable):
         relative_velocity = self.relative_velocity(transmitter, receiver)
         propagation_response = self.propagation_response(transmitter, receiver, carrier_frequency)
 
-        delay_sample_offset = int(propagation_delay * bandwidth - delay)
+        delay_sample_offset = int((propagation_delay - delay) * bandwidth)
         if delay_sample_offset < 0 or delay_sample_offset >= state.shape[3]:
             return
 
-- 
2.43.0


From bcce1db26cfe9bc726a50dbf95d01c91556bb297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 068/170] fix: positions of radar targets during channel
 sampling

---
 hermespy/channel/radar/multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..e88aa14 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -379,8 +379,8 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
         # Query target global coordiante system transformations
         trajectory_sample = target.sample_trajectory(state.time)
-        target_backwards_transform = trajectory_sample.pose
-        target_forwards_transform = trajectory_sample.pose.invert()
+        target_forwards_transform = trajectory_sample.pose
+        target_backwards_transform = trajectory_sample.pose.invert()
 
         # Make sure the transmitter / receiver positions don't collide with target locations
         # This implicitly violates the far-field assumption and leads to numeric instabilities
-- 
2.43.0


From 45e1d564e31a7bc077060e3ef8fdb471b0c57246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 069/170] fix: rays of the strongest cluster delay line
 sub-clusters

---
 hermespy/channel/cdl/cluster_delay_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 22e98f7..8075c26 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -450,7 +450,7 @@ class ClusterDelayLineSample(ChannelSample):
         for subcluster_idx in range(0, virtual_num_clusters):
             cluster_idx = int(subcluster_idx / 3) if subcluster_idx < 6 else subcluster_idx - 4
             ray_indices = (
-                ClusterDelayLineSample.subcluster_indices[cluster_idx]
+                ClusterDelayLineSample.subcluster_indices[subcluster_idx % 3]
                 if cluster_idx < num_split_clusters
                 else range(self.num_rays)
             )
-- 
2.43.0


From 34a638b25572f054f62e3ef646abc0084c19b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 070/170] fix: coordinate frames of cluster delay line rays

---
 hermespy/channel/cdl/cluster_delay_lines.py | 44 ++++++++++++++++-----
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 8075c26..b20e32b 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -5,7 +5,7 @@ from abc import abstractmethod
 from dataclasses import dataclass
 from enum import IntEnum
 from functools import cache, cached_property
-from math import ceil, sin, cos, sqrt
+from math import ceil, sqrt
 from typing import Generator, Generic, Literal, List, Set, Tuple, TypeVar
 from typing_extensions import override
 
@@ -18,6 +18,7 @@ from mpl_toolkits.mplot3d import Axes3D  # type: ignore
 from scipy.constants import pi, speed_of_light
 
 from hermespy.core import (
+    AntennaArrayState,
     AntennaMode,
     ChannelStateInformation,
     ChannelStateFormat,
@@ -406,6 +407,26 @@ class ClusterDelayLineSample(ChannelSample):
     def expected_energy_scale(self) -> float:
         return float(np.sum(self.cluster_powers))
 
+    @staticmethod
+    def __array_response(
+        antennas: AntennaArrayState, direction: Direction, center_frequency: float, mode: AntennaMode
+    ) -> np.ndarray:
+        """Far-field response of an antenna array towards a direction.
+
+        Args:
+            antennas: Antenna array of interest.
+            direction: Direction in local coordinates of the antenna array.
+            center_frequency: Center frequency in Hertz.
+            mode: Antenna mode of interest.
+
+        Returns: Numpy matrix of dimension :math:`M \\times 2`.
+        """
+
+        azimuth, zenith = direction.to_spherical()
+        return antennas.spherical_phase_response(center_frequency, azimuth, zenith, mode)[
+            :, None
+        ] * antennas.characteristics(direction, mode, "local")
+
     def __ray_impulse_generator(
         self, sampling_rate: float, num_samples: int, center_frequency: float
     ) -> Generator[Tuple[np.ndarray, np.ndarray, float], None, None]:
@@ -485,9 +506,8 @@ class ClusterDelayLineSample(ChannelSample):
                     * (sqrt(self.cluster_powers[cluster_idx] / self.num_rays) * nlos_scale)
                 )
 
-                wave_vector = np.array(
-                    [cos(aoa) * sin(zoa), sin(aoa) * sin(zoa), cos(zoa)], dtype=float
-                )
+                # The device velocities are given in global coordinates
+                wave_vector = self.receiver_pose.rotate_direction(rx_direction.view(np.ndarray))
                 impulse: np.ndarray = np.exp(
                     np.inner(wave_vector, relative_velocity) * fast_fading * 2j * pi
                 )
@@ -498,14 +518,20 @@ class ClusterDelayLineSample(ChannelSample):
         if self.__line_of_sight:
             device_vector = self.receiver_pose.translation - self.transmitter_pose.translation
             los_distance = np.linalg.norm(device_vector, 2)
-            rx_wave_vector = device_vector / los_distance
+            rx_wave_vector = -device_vector / los_distance
 
             # Equation 7.5-29
-            tx_array_response = self.transmitter_antennas.cartesian_array_response(
-                center_frequency, self.receiver_pose.translation, "global", AntennaMode.TX
+            tx_array_response = self.__array_response(
+                self.transmitter_antennas,
+                self.transmitter_pose.invert().transform_direction(device_vector, True),
+                center_frequency,
+                AntennaMode.TX,
             )
-            rx_array_response = self.receiver_antennas.cartesian_array_response(
-                center_frequency, self.transmitter_pose.translation, "global", AntennaMode.RX
+            rx_array_response = self.__array_response(
+                self.receiver_antennas,
+                self.receiver_pose.invert().transform_direction(-device_vector, True),
+                center_frequency,
+                AntennaMode.RX,
             )
 
             # Second summand of equation 7.5-30, including equation 7.5-29 of ETSI TR 138 901 v17.0.0
-- 
2.43.0


From f69cb21cbf5cdb3b9d95505fceb781dcd7c5d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 071/170] fix: polarization and power of the cluster delay line
 line of sight component

---
 hermespy/channel/cdl/cluster_delay_lines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index b20e32b..703ebf1 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -538,9 +538,9 @@ class ClusterDelayLineSample(ChannelSample):
             los_delay: float = self.cluster_delays[0]
             los_channel: np.ndarray = (
                 rx_array_response
-                @ np.array([[1, 0], [-1, 0]])
+                @ np.array([[1, 0], [0, -1]])
                 @ tx_array_response.T
-                * (rice_factor_lin / (1 + rice_factor_lin)) ** 0.5
+                * (np.sum(self.cluster_powers) * rice_factor_lin / (1 + rice_factor_lin)) ** 0.5
             )
             los_impulse: np.ndarray = np.exp(-2j * pi * los_distance * wavelength_factor) * np.exp(
                 np.inner(rx_wave_vector, relative_velocity) * fast_fading * 2j * pi
-- 
2.43.0


From ca2bdea61e233c8046cb52fecfd23819cbfab5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 072/170] fix: polarization of reciprocal cluster delay line
 samples

---
 hermespy/channel/cdl/cluster_delay_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 703ebf1..e1cf2bd 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -777,7 +777,7 @@ class ClusterDelayLineSample(ChannelSample):
             self.cluster_delays,
             self.cluster_delay_spread,
             self.cluster_powers,
-            self.polarization_transformations,
+            self.polarization_transformations.swapaxes(0, 1),
             state,
         )
 
-- 
2.43.0


From e66cfd99672968b406fe6977b1b7de37a6fa770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 073/170] fix: channel state and block offset of cluster delay
 line samples

---
 hermespy/channel/cdl/cluster_delay_lines.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index e1cf2bd..8b6fcd0 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -428,7 +428,7 @@ class ClusterDelayLineSample(ChannelSample):
         ] * antennas.characteristics(direction, mode, "local")
 
     def __ray_impulse_generator(
-        self, sampling_rate: float, num_samples: int, center_frequency: float
+        self, sampling_rate: float, num_samples: int, center_frequency: float, offset: int = 0
     ) -> Generator[Tuple[np.ndarray, np.ndarray, float], None, None]:
         """Sequential generation of individual ray impulse responses.
 
@@ -444,6 +444,9 @@ class ClusterDelayLineSample(ChannelSample):
 
            center_frequency:
                 Center frequency in Hertz.
+
+           offset:
+                Index of the first generated sample relative to the sample's timestamp.
         """
 
         # First summand scaling of equation 7.5-30 in ETSI TR 138 901 v17.0.0
@@ -465,7 +468,7 @@ class ClusterDelayLineSample(ChannelSample):
         # Wavelength factor
         wavelength_factor = center_frequency / speed_of_light
         relative_velocity = self.receiver_velocity - self.transmitter_velocity
-        fast_fading = wavelength_factor * np.arange(num_samples) / sampling_rate
+        fast_fading = wavelength_factor * (offset + np.arange(num_samples)) / sampling_rate
 
         # Compute the cluster propagation parameters
         for subcluster_idx in range(0, virtual_num_clusters):
@@ -568,7 +571,7 @@ class ClusterDelayLineSample(ChannelSample):
         )[0]
 
         for channel, impulse, delay in self.__ray_impulse_generator(
-            self.bandwidth, signal.num_samples, self.carrier_frequency
+            self.bandwidth, signal.num_samples, self.carrier_frequency, signal.offset
         ):
             if interpolation == InterpolationMode.NEAREST:
                 delay_in_samples = int((delay + self.delay_offset) * self.bandwidth)
@@ -590,7 +593,7 @@ class ClusterDelayLineSample(ChannelSample):
         max_num_taps: int,
         interpolation_mode: InterpolationMode = InterpolationMode.NEAREST,
     ) -> ChannelStateInformation:
-        max_delay_in_samples = min(max_num_taps, ceil(self.max_delay * self.bandwidth))
+        max_delay_in_samples = min(max_num_taps - 1, ceil(self.max_delay * self.bandwidth))
         raw_state = np.zeros(
             (
                 self.num_receive_antennas,
-- 
2.43.0


From f3a824420911f457434015e5c77c690602947df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 074/170] fix: delays of eliminated cluster delay line clusters

---
 hermespy/channel/cdl/cluster_delay_lines.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 8b6fcd0..8e3844b 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -1550,7 +1550,7 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         delay_spread: float,
         delays: np.ndarray,
         rice_factor: float,
-    ) -> np.ndarray:
+    ) -> Tuple[np.ndarray, np.ndarray]:
         """Compute a single sample set of normalized cluster power factors from delays.
 
         A single cluster power factor is referred to as :math:`P_n` within the the standard.
@@ -1575,7 +1575,7 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
                 Rice factor in dB.
                 Denoted by :math:`K` in the standard.
 
-        Returns: Vector of cluster power scales.
+        Returns: Vector of cluster power scales and indices of the clusters that were not eliminated.
         """
 
         delay_scaling = self._delay_scaling(state)
@@ -1601,10 +1601,10 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
             powers /= np.sum(powers.flat)
 
         # Eliminate clusters with powers less than -25 dB with respect to the strongest cluster
-        cutoff_power = powers[0] * 10 ** (-25 / 10)
-        powers = powers[np.where(powers >= cutoff_power)]
+        cutoff_power = powers.max() * 10 ** (-25 / 10)
+        cluster_indices = np.flatnonzero(powers >= cutoff_power)
 
-        return powers
+        return powers[cluster_indices], cluster_indices
 
     def _ray_azimuth_angles(
         self,
@@ -1908,9 +1908,10 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         raw_cluster_delays, cluster_delays, minimal_delay = self._cluster_delays(
             parameters_sample, state, DS, K
         )
-        cluster_powers = self._cluster_powers(parameters_sample, state, DS, raw_cluster_delays, K)
-        raw_cluster_delays = raw_cluster_delays[: cluster_powers.size]
-        cluster_delays = cluster_delays[: cluster_powers.size]
+        cluster_powers, cluster_indices = self._cluster_powers(
+            parameters_sample, state, DS, raw_cluster_delays, K
+        )
+        cluster_delays = cluster_delays[cluster_indices]
 
         # Compute cluster angles
         ray_aod = (
-- 
2.43.0


From e8e6b6f60df16f57f9c421f54c62fd13210c0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 075/170] fix: gain of 3GPP cluster delay line channels

---
 hermespy/channel/cdl/cluster_delay_lines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 8e3844b..9251916 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -2023,9 +2023,9 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         else:
             oxygen_loss = 1.0
 
-        # Compute the expected amplitude scale factor of the sample
-        expected_loss = self.gain * oxygen_loss
-        true_cluster_powers = cluster_powers * path_power_scale * expected_loss**2
+        # Compute the expected power scale factors of the sample
+        expected_loss = self.gain * oxygen_loss**2
+        true_cluster_powers = cluster_powers * path_power_scale * expected_loss
 
         return ClusterDelayLineSample(
             state.line_of_sight,
-- 
2.43.0


From dd358b8e757ea9b4af50ff7b676b4a9a12486719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 076/170] fix: cross polarization, gain and cluster splitting
 of tabulated cluster delay line models

---
 hermespy/channel/cdl/cdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/cdl/cdl.py b/hermespy/channel/cdl/cdl.py
index f0cced9..336ba29 100644
--- a/hermespy/channel/cdl/cdl.py
+++ b/hermespy/channel/cdl/cdl.py
@@ -276,7 +276,7 @@ class CDLRealization(ChannelRealization[ClusterDelayLineSample]):
 
         # Draw initial random phases (step 10)
         # A single 2x2 slice represents the jones matrix transforming the polarization of a single ray
-        cross_polarization_factor = 10 ** (XPR_dB / 10)
+        cross_polarization_factor = 10 ** (-0.05 * XPR_dB)
         polarization_transformations = np.exp(
             2j * np.pi * self.__xpr_phase.sample(consistent_sample)
         )
@@ -292,8 +292,8 @@ class CDLRealization(ChannelRealization[ClusterDelayLineSample]):
             np.pi / 180 * shuffled_ray_zods,
             0,
             cluster_delays,
-            self.__rms_delay,
-            cluster_powers,
+            0.0,  # The tabulated clusters already include the split strongest clusters
+            self.gain * cluster_powers,
             polarization_transformations,
             state,
         )
-- 
2.43.0


From dbd10b1666e827d646771cac0f01003bcd4312a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 077/170] fix: delay spread within cluster delay line clusters

---
 hermespy/channel/cdl/cluster_delay_lines.py | 20 +++++++++++++++++++-
 hermespy/channel/cdl/indoor_factory.py      |  2 +-
 hermespy/channel/cdl/indoor_office.py       |  4 ++++
 hermespy/channel/cdl/rural_macrocells.py    |  2 +-
 hermespy/channel/cdl/urban_macrocells.py    |  8 +++-----
 hermespy/channel/cdl/urban_microcells.py    |  2 +-
 6 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index 9251916..a04331b 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -1354,6 +1354,24 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         """Number of clusters in the channel realization."""
         ...  # pragma: no cover
 
+    @abstractmethod
+    def _cluster_delay_spread(self, state: LSST, carrier_frequency: float) -> float:
+        """Delay spread within an individual cluster.
+
+        Referred to as :math:`c_{DS}` within the standard.
+
+        Args:
+
+            state:
+                Large scale state of the channel.
+
+            carrier_frequency:
+                Carrier frequency in Hz.
+
+        Returns: Delay spread in seconds.
+        """
+        ...  # pragma: no cover
+
     @abstractmethod
     def _cluster_aod_spread(self, state: LSST) -> float:
         """Azimuth Angle-of-Departure spread within an individual cluster.
@@ -2036,7 +2054,7 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
             shuffled_ray_zod,
             delay_offset,
             cluster_delays,
-            DS,
+            self._cluster_delay_spread(state, channel_state.carrier_frequency),
             true_cluster_powers,
             polarization_transformations,
             channel_state,
diff --git a/hermespy/channel/cdl/indoor_factory.py b/hermespy/channel/cdl/indoor_factory.py
index 2f2387f..fb6650c 100644
--- a/hermespy/channel/cdl/indoor_factory.py
+++ b/hermespy/channel/cdl/indoor_factory.py
@@ -341,7 +341,7 @@ class IndoorFactoryRealization(ClusterDelayLineRealization[LOSState]):
 
     @staticmethod
     def _cluster_delay_spread(state: LOSState, carrier_frequency: float) -> float:
-        return 0.0  # pragma: no cover
+        return 3.91e-9  # TR 138.901 v17.0.0 section 7.5, unspecified cluster delay spread
 
     @staticmethod
     def _cluster_aod_spread(state: LOSState) -> float:
diff --git a/hermespy/channel/cdl/indoor_office.py b/hermespy/channel/cdl/indoor_office.py
index 06214c5..622febc 100644
--- a/hermespy/channel/cdl/indoor_office.py
+++ b/hermespy/channel/cdl/indoor_office.py
@@ -300,6 +300,10 @@ class IndoorOfficeRealization(ClusterDelayLineRealization[LOSState]):
     def _num_clusters(state: LOSState) -> int:
         return IndoorOfficeRealization.__num_clusters[state]
 
+    @staticmethod
+    def _cluster_delay_spread(state: LOSState, carrier_frequency: float) -> float:
+        return 3.91e-9  # TR 138.901 v17.0.0 section 7.5, unspecified cluster delay spread
+
     @staticmethod
     def _cluster_aod_spread(state: LOSState) -> float:
         return 5.0
diff --git a/hermespy/channel/cdl/rural_macrocells.py b/hermespy/channel/cdl/rural_macrocells.py
index 6ccd00f..fede29a 100644
--- a/hermespy/channel/cdl/rural_macrocells.py
+++ b/hermespy/channel/cdl/rural_macrocells.py
@@ -294,7 +294,7 @@ class RuralMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
 
     @staticmethod
     def _cluster_delay_spread(state: O2IState, carrier_frequency: float) -> float:
-        return 0.0  # pragma: no cover
+        return 3.91e-9  # TR 138.901 v17.0.0 section 7.5, unspecified cluster delay spread
 
     @staticmethod
     def _cluster_aod_spread(state: O2IState) -> float:
diff --git a/hermespy/channel/cdl/urban_macrocells.py b/hermespy/channel/cdl/urban_macrocells.py
index 3c5d4aa..88f3f94 100644
--- a/hermespy/channel/cdl/urban_macrocells.py
+++ b/hermespy/channel/cdl/urban_macrocells.py
@@ -325,14 +325,12 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
         return UrbanMacrocellsRealization.__num_clusters[state]
 
     @staticmethod
-    def _cluster_delay_spread(
-        state: O2IState, carrier_frequency: float
-    ) -> float:  # pragma: no cover
+    def _cluster_delay_spread(state: O2IState, carrier_frequency: float) -> float:
         # Implementation of TR 138.901 v17.0.0 Table 7.5-6
         if state == O2IState.O2I:
-            return 11.0
+            return 11.0e-9
         else:
-            return max(0.25, 6.5622 - 3.4084 * log10(carrier_frequency * 1e-9))
+            return 1e-9 * max(0.25, 6.5622 - 3.4084 * log10(carrier_frequency * 1e-9))
 
     # RMS cluster azimuth of departure spread for different LOS states in degrees
     # TR 138.901 v17.0.0 Table 7.5-6
diff --git a/hermespy/channel/cdl/urban_microcells.py b/hermespy/channel/cdl/urban_microcells.py
index 55858dd..101240f 100644
--- a/hermespy/channel/cdl/urban_microcells.py
+++ b/hermespy/channel/cdl/urban_microcells.py
@@ -337,7 +337,7 @@ class UrbanMicrocellsRealization(ClusterDelayLineRealization[O2IState]):
 
     @staticmethod
     def _cluster_delay_spread(state: O2IState, carrier_frequency: float) -> float:
-        return UrbanMicrocellsRealization.__cluster_delay_spread[state]  # pragma: no cover
+        return UrbanMicrocellsRealization.__cluster_delay_spread[state]
 
     # RMS cluster azimuth of departure spread for different LOS states in degrees
     # TR 138.901 v17.0.0 Table 7.5-6
-- 
2.43.0


From a1376757f4bc0849492f43eccd677da84f1f5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 078/170] fix: path losses of rural and dense indoor 3GPP
 scenarios

---
 hermespy/channel/cdl/indoor_factory.py   | 17 ++++++++++-------
 hermespy/channel/cdl/rural_macrocells.py | 21 +++++++++++----------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/hermespy/channel/cdl/indoor_factory.py b/hermespy/channel/cdl/indoor_factory.py
index fb6650c..617349f 100644
--- a/hermespy/channel/cdl/indoor_factory.py
+++ b/hermespy/channel/cdl/indoor_factory.py
@@ -142,18 +142,21 @@ class IndoorFactoryRealization(ClusterDelayLineRealization[LOSState]):
         if state == LOSState.LOS:
             return PL_LOS
 
+        PL_SL = (
+            33
+            + 25.5 * log10(parameters.distance_3d)
+            + 20 * log10(parameters.carrier_frequency / 1e9)
+        )
+
         if self.__factory_type == FactoryType.SL:
-            PL_NLOS = (
-                33
-                + 25.5 * log10(parameters.distance_3d)
-                + 20 * log10(parameters.carrier_frequency / 1e9)
-            )
+            PL_NLOS = PL_SL
 
         elif self.__factory_type == FactoryType.DL:
-            PL_NLOS = (
+            PL_NLOS = max(
+                PL_SL,
                 18.6
                 + 35.7 * log10(parameters.distance_3d)
-                + 20 * log10(parameters.carrier_frequency / 1e9)
+                + 20 * log10(parameters.carrier_frequency / 1e9),
             )
 
         elif self.__factory_type == FactoryType.SH:
diff --git a/hermespy/channel/cdl/rural_macrocells.py b/hermespy/channel/cdl/rural_macrocells.py
index fede29a..7927f4c 100644
--- a/hermespy/channel/cdl/rural_macrocells.py
+++ b/hermespy/channel/cdl/rural_macrocells.py
@@ -92,23 +92,24 @@ class RuralMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
         h_BS = min(150, max(5, parameters.base_height))
         h_UT = min(10, max(1, parameters.terminal_height))
         h = 5  # Average building height in meters
-        PL1 = (
-            20
-            * np.log10(
-                40 * np.pi * parameters.distance_3d * parameters.carrier_frequency * 1e-9 / 3
+
+        def PL1(distance: float) -> float:
+            return (
+                20 * np.log10(40 * np.pi * distance * parameters.carrier_frequency * 1e-9 / 3)
+                + min(0.03 * h**1.72, 10) * np.log10(distance)
+                - min(0.044 * (h**1.72), 14.77)
+                + 0.002 * np.log10(h) * distance
             )
-            + min(0.03 * h**1.72, 10) * np.log10(parameters.distance_3d)
-            - min(0.044 * (h**1.72), 14.77)
-            + 0.002 * np.log10(h) * parameters.distance_3d
-        )
 
         # Compute breakpoint distance according to Note 5 in TR 138.901 v17.0.0
         # Note that the carrier frequency is in Hz here
         breakpoint_distance = 2 * np.pi * h_BS * h_UT * parameters.carrier_frequency * 1e-8 / 3
         if parameters.distance_2d <= breakpoint_distance:
-            PL_LOS = PL1
+            PL_LOS = PL1(parameters.distance_3d)
         else:
-            PL_LOS = PL1 + 40 * np.log10(parameters.distance_3d / breakpoint_distance)
+            PL_LOS = PL1(breakpoint_distance) + 40 * np.log10(
+                parameters.distance_3d / breakpoint_distance
+            )
 
         if state == O2IState.LOS:
             return PL_LOS
-- 
2.43.0


From 094a700eb11b4a49f2944c465bdfac71c08c12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 079/170] fix: line of sight probabilities of urban 3GPP
 scenarios

---
 hermespy/channel/cdl/urban_macrocells.py | 12 ++++++++----
 hermespy/channel/cdl/urban_microcells.py |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/cdl/urban_macrocells.py b/hermespy/channel/cdl/urban_macrocells.py
index 88f3f94..5929373 100644
--- a/hermespy/channel/cdl/urban_macrocells.py
+++ b/hermespy/channel/cdl/urban_macrocells.py
@@ -133,10 +133,14 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
 
     def _sample_large_scale_state(
         self, state_variable_sample: float, parameters: ClusterDelayLineSampleParameters
-    ) -> O2IState:  # pragma: no cover
-        los_probability = 18 / parameters.distance_3d + np.exp(-parameters.distance_3d / 36.0) * (
-            1 - 18 / parameters.distance_3d
-        )
+    ) -> O2IState:
+        # TR 138.901 v17.0.0 Table 7.4.2-1
+        distance = max(18.0, parameters.distance_2d)
+        terminal_height = min(23.0, parameters.terminal_height)
+        C = ((terminal_height - 13.0) / 10.0) ** 1.5 if terminal_height > 13.0 else 0.0
+        los_probability = (
+            18 / distance + np.exp(-distance / 63.0) * (1 - 18 / distance)
+        ) * (1 + C * 5 / 4 * (distance / 100) ** 3 * np.exp(-distance / 150))
 
         if state_variable_sample < los_probability:
             return O2IState.LOS
diff --git a/hermespy/channel/cdl/urban_microcells.py b/hermespy/channel/cdl/urban_microcells.py
index 101240f..86ac789 100644
--- a/hermespy/channel/cdl/urban_microcells.py
+++ b/hermespy/channel/cdl/urban_microcells.py
@@ -135,9 +135,9 @@ class UrbanMicrocellsRealization(ClusterDelayLineRealization[O2IState]):
     def _sample_large_scale_state(
         self, state_variable_sample: float, parameters: ClusterDelayLineSampleParameters
     ) -> O2IState:
-        los_probability = 18 / parameters.distance_3d + np.exp(-parameters.distance_3d / 36.0) * (
-            1 - 18 / parameters.distance_3d
-        )
+        # TR 138.901 v17.0.0 Table 7.4.2-1
+        distance = max(18.0, parameters.distance_2d)
+        los_probability = 18 / distance + np.exp(-distance / 36.0) * (1 - 18 / distance)
 
         return O2IState.LOS if state_variable_sample < los_probability else O2IState.NLOS
 
-- 
2.43.0


From 8ecbcd35fbf065a42435a5bcef01f3fc97b21c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 080/170] fix: number of clusters of non line of sight urban
 macrocells

---
 hermespy/channel/cdl/urban_macrocells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/cdl/urban_macrocells.py b/hermespy/channel/cdl/urban_macrocells.py
index 5929373..ca35991 100644
--- a/hermespy/channel/cdl/urban_macrocells.py
+++ b/hermespy/channel/cdl/urban_macrocells.py
@@ -488,7 +488,7 @@ class UrbanMacrocells(ClusterDelayLineBase[UrbanMacrocellsRealization, O2IState]
 
     @property
     def max_num_clusters(self) -> int:
-        return 19
+        return 20
 
     @property
     def max_num_rays(self) -> int:
-- 
2.43.0


From 32a501a66bf0bbcb4922d3d74bf45f1f4c085d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 081/170] fix: large scale parameters of 3GPP cluster delay
 line scenarios

---
 hermespy/channel/cdl/cluster_delay_lines.py |  2 +-
 hermespy/channel/cdl/indoor_office.py       |  2 +-
 hermespy/channel/cdl/urban_macrocells.py    | 28 +++++++++++----------
 hermespy/channel/cdl/urban_microcells.py    | 16 ++++++------
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/hermespy/channel/cdl/cluster_delay_lines.py b/hermespy/channel/cdl/cluster_delay_lines.py
index a04331b..014695a 100644
--- a/hermespy/channel/cdl/cluster_delay_lines.py
+++ b/hermespy/channel/cdl/cluster_delay_lines.py
@@ -1553,7 +1553,7 @@ class ClusterDelayLineRealization(ChannelRealization[ClusterDelayLineSample], Ge
         scaled_delays = sorted_delays.copy()
         if state.line_of_sight:
             rice_scale = (
-                0.775 - 0.0433 * rice_factor + 2e-4 * rice_factor**2 + 17e-5 * rice_factor**3
+                0.7705 - 0.0433 * rice_factor + 2e-4 * rice_factor**2 + 17e-6 * rice_factor**3
             )
             scaled_delays /= rice_scale
             minimal_delay = 0.0  # This is required for the oxygen absorption computation
diff --git a/hermespy/channel/cdl/indoor_office.py b/hermespy/channel/cdl/indoor_office.py
index 622febc..6efa4f7 100644
--- a/hermespy/channel/cdl/indoor_office.py
+++ b/hermespy/channel/cdl/indoor_office.py
@@ -175,7 +175,7 @@ class IndoorOfficeRealization(ClusterDelayLineRealization[LOSState]):
     # Parameters for computing the mean delay spread
     # TR 138.901 v17.0.0 Table 7.5-6
     __delay_spread_mean: Mapping[LOSState, Tuple[float, float]] = {
-        LOSState.LOS: (-0.01, -7.629),
+        LOSState.LOS: (-0.01, -7.692),
         LOSState.NLOS: (-0.28, -7.173),
     }
 
diff --git a/hermespy/channel/cdl/urban_macrocells.py b/hermespy/channel/cdl/urban_macrocells.py
index ca35991..74e1f7d 100644
--- a/hermespy/channel/cdl/urban_macrocells.py
+++ b/hermespy/channel/cdl/urban_macrocells.py
@@ -199,7 +199,7 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
     # TR 138.901 v17.0.0 Table 7.5-6
     __aod_spread_mean: Mapping[O2IState, Tuple[float, float]] = {
         O2IState.LOS: (1.06, 0.1114),
-        O2IState.NLOS: (1.5, -0.1114),
+        O2IState.NLOS: (1.5, -0.1144),
         O2IState.O2I: (1.25, 0),
     }
 
@@ -253,8 +253,8 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
     # TR 138.901 v17.0.0 Table 7.5-6
     __zoa_spread_mean: Mapping[O2IState, Tuple[float, float]] = {
         O2IState.LOS: (0.95, 0.0),
-        O2IState.NLOS: (1.1512, -0.3236),
-        O2IState.O2I: (1.76, 0.0),
+        O2IState.NLOS: (1.512, -0.3236),
+        O2IState.O2I: (1.01, 0.0),
     }
 
     @staticmethod
@@ -313,7 +313,7 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
     __cross_polarization_power_std: Mapping[O2IState, float] = {
         O2IState.LOS: 4.0,
         O2IState.NLOS: 3.0,
-        O2IState.O2I: 3.0,
+        O2IState.O2I: 5.0,
     }
 
     @staticmethod
@@ -363,9 +363,9 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
     # RMS cluster zenith of arrival spread for different LOS states in degrees
     # TR 138.901 v17.0.0 Table 7.5-6
     __cluster_zoa_spread: Mapping[O2IState, float] = {
-        O2IState.LOS: 3.0,
-        O2IState.NLOS: 3.0,
-        O2IState.O2I: 4.0,
+        O2IState.LOS: 7.0,
+        O2IState.NLOS: 7.0,
+        O2IState.O2I: 3.0,
     }
 
     @staticmethod
@@ -388,16 +388,18 @@ class UrbanMacrocellsRealization(ClusterDelayLineRealization[O2IState]):
     def _zod_spread_mean(state: O2IState, parameters: ClusterDelayLineSampleParameters) -> float:
         # Implementation of TR 138.901 v17.0.0 Table 7.5-7
         if state == O2IState.LOS:
-            return (
-                max(-0.5, -2.1 * parameters.distance_2d / 1000)
+            return max(
+                -0.5,
+                -2.1 * parameters.distance_2d / 1000
                 - 0.01 * (parameters.terminal_height - 1.5)
-                + 0.75
+                + 0.75,
             )
         else:
-            return (
-                max(-0.5, -2.1 * parameters.distance_2d / 1000)
+            return max(
+                -0.5,
+                -2.1 * parameters.distance_2d / 1000
                 - 0.01 * (parameters.terminal_height - 1.5)
-                + 0.9
+                + 0.9,
             )
 
     # Standard deviation of the zenith of departure spread for different LOS states
diff --git a/hermespy/channel/cdl/urban_microcells.py b/hermespy/channel/cdl/urban_microcells.py
index 86ac789..df9d5f9 100644
--- a/hermespy/channel/cdl/urban_microcells.py
+++ b/hermespy/channel/cdl/urban_microcells.py
@@ -391,16 +391,18 @@ class UrbanMicrocellsRealization(ClusterDelayLineRealization[O2IState]):
     def _zod_spread_mean(state: O2IState, parameters: ClusterDelayLineSampleParameters) -> float:
         # Implementation of TR 138.901 v17.0.0 Table 7.5-8
         if state == O2IState.LOS:
-            return (
-                max(-0.21, -14.8 * parameters.distance_2d / 1000)
+            return max(
+                -0.21,
+                -14.8 * parameters.distance_2d / 1000
                 + 0.01 * abs(parameters.terminal_height - parameters.base_height)
-                + 0.83
+                + 0.83,
             )
         else:
-            return (
-                max(-0.5, -3.1 * parameters.distance_2d / 1000)
+            return max(
+                -0.5,
+                -3.1 * parameters.distance_2d / 1000
                 + 0.01 * max(parameters.terminal_height - parameters.base_height, 0.0)
-                + 0.2
+                + 0.2,
             )
 
     @staticmethod
@@ -413,7 +415,7 @@ class UrbanMicrocellsRealization(ClusterDelayLineRealization[O2IState]):
         if state == O2IState.LOS:
             return 0.0
         else:
-            return -(10 ** (-1.5 * log10(max(10, parameters.terminal_height)) + 3.3))
+            return -(10 ** (-1.5 * log10(max(10, parameters.distance_2d)) + 3.3))
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From 7f17c17e6fed9d05be86e235838c8fc81477ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 082/170] fix: delays and powers of 5G TDL models A and B

---
 hermespy/channel/fading/tdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 966c7cb..b73debf 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -115,7 +115,7 @@ class TDL(MultipathFadingChannel):
                     1.5375,
                     1.8978,
                     2.2242,
-                    2.1717,
+                    2.1718,
                     2.4942,
                     2.5119,
                     3.0582,
@@ -195,7 +195,7 @@ class TDL(MultipathFadingChannel):
                     -4,
                     -3.2,
                     -9.8,
-                    -3.2,
+                    -1.2,
                     -3.4,
                     -5.2,
                     -7.6,
-- 
2.43.0


From a9ed7a9ba177e23e2d337d2c10269b9cbbfe9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 083/170] fix: location of single radar targets relative to the
 radar sensor

---
 hermespy/channel/radar/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..cde631b 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -122,7 +122,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             target_velocity = unit_direction * self.__target_velocity
 
         target_path = RadarTargetPath(
-            unit_direction * target_range,
+            state.transmitter.position + unit_direction * target_range,
             target_velocity,
             self.__target_cross_section,
             float(2 * np.pi * self.__target_phase_variable.sample(consistent_sample).item()),
-- 
2.43.0


From 1c4ce5e3636faf479df68eb20d0955aca0b99d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 084/170] fix: splitting radio-frequency signals

---
 hermespy/simulation/rf/blocks/split.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..5e777f5 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -57,7 +57,13 @@ class Split(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return np.tile(input[[0], :], (self.__num_outputs, 1))  # type: ignore
+        return RFSignal.FromNDArray(
+            np.tile(input.view(np.ndarray)[[0], :], (self.__num_outputs, 1)),
+            input.sampling_rate,
+            np.repeat(input.carrier_frequencies[:1], self.__num_outputs),
+            np.repeat(input.noise_powers[:1], self.__num_outputs),
+            input.delay,
+        )
 
     @property
     def i(self) -> RFBlockPort[Split]:
-- 
2.43.0


From 0083ac5aa4194d7c86e97fed9f263af3408c21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 085/170] fix: carrier frequency of frequency-quadrupled
 signals

---
 hermespy/simulation/rf/blocks/x4.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..6cf6d2b 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -70,4 +70,5 @@ class X4(RFBlock):
         # Multiply the input signal's frequency by 4
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
+        output.carrier_frequency = output.carrier_frequencies[0]
         return output
-- 
2.43.0


From 9e1652ebd871170e8bb1a3d5d80b8148fc4e7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 086/170] fix: number of levels of mid-tread quantizers

---
 hermespy/simulation/rf/blocks/ad.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..a4e67b0 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -482,7 +482,6 @@ class ADC(ConverterBase, DSPOutputBlock):
                 )
 
             # Mid-tread quantization
-            # Note that mid-tread quantization generates an odd number of levels
             else:
                 step = 2 * max_amplitude / (self.num_quantization_levels + 1)
 
@@ -494,8 +493,14 @@ class ADC(ConverterBase, DSPOutputBlock):
                     input_signal.imag, -max_amplitude, max_amplitude - step
                 )
 
-                quantized_signal.real = step * np.floor(clipped_signal.real / step + 0.5)
-                quantized_signal.imag = step * np.floor(clipped_signal.imag / step + 0.5)
+                # Rounding at the upper edge must not exceed the converter's highest level
+                max_level = self.num_quantization_levels // 2 - 1
+                quantized_signal.real = step * np.minimum(
+                    np.floor(clipped_signal.real / step + 0.5), max_level
+                )
+                quantized_signal.imag = step * np.minimum(
+                    np.floor(clipped_signal.imag / step + 0.5), max_level
+                )
 
         return quantized_signal
 
-- 
2.43.0


From 2a3a80185fa91205bcd76e29295f6a7b05f660e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 087/170] fix: ramp generators with falling chirps

---
 hermespy/simulation/rf/blocks/ramp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index fd28f6a..f6c45ce 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -166,7 +166,7 @@ class RampGenerator(RFBlock):
         """
 
         num_guarded_chirp_samples = int(chirp_interval * sampling_rate)
-        chirp_duration = bandwidth / slope
+        chirp_duration = bandwidth / abs(slope)
         num_chirp_samples = min(num_guarded_chirp_samples, int(chirp_duration * sampling_rate))
 
         chirp_samples = np.zeros(num_guarded_chirp_samples, dtype=np.complex128)
-- 
2.43.0


From 3f55e113f1228a98dca8e7909ff36e9686088282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 088/170] fix: quantization of phase shifters

---
 hermespy/simulation/rf/blocks/shift.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..4a3c99a 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -98,7 +98,12 @@ class Shift(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return input * np.exp(1j * self.__phase)
+        phase = self.__phase
+        if self.__num_quantization_bits > 0:
+            phase_step = 2 * np.pi / 2**self.__num_quantization_bits
+            phase = phase_step * np.round(phase / phase_step)
+
+        return input * np.exp(1j * phase)
 
     @property
     def i(self) -> RFBlockPort[Shift]:
-- 
2.43.0


From 74c39ba5318990cbd587072786a82ef23c34f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 089/170] fix: memory polynomial power amplifier models

---
 hermespy/simulation/rf/blocks/amps.py | 74 +++++++++++++++++----------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 30d8da8..051aa8b 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -731,18 +731,27 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = self.coeff_matrix.shape[1]
-        windows = np.lib.stride_tricks.sliding_window_view(
-            input_signal.view(np.ndarray), memory_len
-        )[:, ::-1]
         K_range = np.arange(degree_len)[:, None, None]
-        input_matrix = (
-            (windows[None] * np.abs(windows[None]) ** K_range)
-            .transpose(1, 0, 2)
-            .reshape(input_signal.size - memory_len + 1, -1)
-        )
-        output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
+
+        output_samples = np.empty(input_signal.shape, dtype=np.complex128)
+        for stream, output_stream in zip(input_signal.view(np.ndarray), output_samples):
+            # The amplifier is at rest before the first sample
+            windows = np.lib.stride_tricks.sliding_window_view(
+                np.concatenate((np.zeros(memory_len - 1), stream)), memory_len
+            )[:, ::-1]
+            input_matrix = (
+                (windows[None] * np.abs(windows[None]) ** K_range)
+                .transpose(1, 0, 2)
+                .reshape(stream.size, -1)
+            )
+            output_stream[:] = input_matrix @ self.coeff_matrix.ravel(order="F")
+
         return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
+            output_samples,
+            input_signal.sampling_rate,
+            input_signal.carrier_frequencies,
+            input_signal.noise_powers,
+            input_signal.delay,
         )
 
     @override
@@ -833,25 +842,34 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
     def model(self, input_signal: RFSignal) -> RFSignal:
         memory_len = self.coeff_matrix.shape[0]
         degree_len = int((self.coeff_matrix.shape[1] - 1) / memory_len) + 1
-        x = input_signal.view(np.ndarray)[:, None]
-        xLen = x.shape[0]
-        num_samples = xLen - memory_len + 1
-        absPow = np.abs(x) ** np.arange(1, degree_len)
-        mem = np.arange(memory_len, 0, -1)[:, None]
-        offsets = np.arange(0, xLen * (degree_len - 1), xLen)
-        pow_idx = np.arange(num_samples)[:, None] + (mem + offsets).ravel(order="F")
-        pow_part = absPow.ravel(order="F")[pow_idx - 1]
-        topPlane = np.concatenate((np.ones((num_samples, 1)), pow_part), axis=1).T[None, :, :]
-        side_idx = np.arange(num_samples)[:, None] + np.arange(memory_len, 0, -1)
-        sidePlane = x.ravel()[side_idx - 1].T[:, None, :]
-        input_matrix = (
-            (sidePlane * topPlane)
-            .reshape((memory_len * (memory_len * (degree_len - 1) + 1), num_samples), order="F")
-            .T
-        )
-        output_samples = input_matrix @ self.coeff_matrix.ravel(order="F")
+
+        output_samples = np.empty(input_signal.shape, dtype=np.complex128)
+        for stream, output_stream in zip(input_signal.view(np.ndarray), output_samples):
+            # The amplifier is at rest before the first sample
+            x = np.concatenate((np.zeros(memory_len - 1), stream))[:, None]
+            xLen = x.shape[0]
+            num_samples = xLen - memory_len + 1
+            absPow = np.abs(x) ** np.arange(1, degree_len)
+            mem = np.arange(memory_len, 0, -1)[:, None]
+            offsets = np.arange(0, xLen * (degree_len - 1), xLen)
+            pow_idx = np.arange(num_samples)[:, None] + (mem + offsets).ravel(order="F")
+            pow_part = absPow.ravel(order="F")[pow_idx - 1]
+            topPlane = np.concatenate((np.ones((num_samples, 1)), pow_part), axis=1).T[None, :, :]
+            side_idx = np.arange(num_samples)[:, None] + np.arange(memory_len, 0, -1)
+            sidePlane = x.ravel()[side_idx - 1].T[:, None, :]
+            input_matrix = (
+                (sidePlane * topPlane)
+                .reshape((memory_len * (memory_len * (degree_len - 1) + 1), num_samples), order="F")
+                .T
+            )
+            output_stream[:] = input_matrix @ self.coeff_matrix.ravel(order="F")
+
         return RFSignal.FromNDArray(
-            output_samples, input_signal.sampling_rate, input_signal.carrier_frequency
+            output_samples,
+            input_signal.sampling_rate,
+            input_signal.carrier_frequencies,
+            input_signal.noise_powers,
+            input_signal.delay,
         )
 
     @override
-- 
2.43.0


From a99a9e3a80dfd22fabbc93ae6ff738884b2c1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 090/170] fix: several connections between the same pair of
 radio-frequency blocks

---
 hermespy/simulation/rf/chain.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..0d91e81 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -147,24 +147,27 @@ class RFBlockReference(Generic[RFBT], Serializable):
     def num_connected_input_ports(self) -> int:
         """Number of connected input ports."""
 
-        return sum(len(v[0]) for v in self.__incoming_connections.values())
+        return self.block.num_input_ports - len(self.open_input_ports)
 
     @property
     def num_connected_output_ports(self) -> int:
         """Number of connected output ports."""
 
-        return sum(len(v[0]) for v in self.__outgoing_connections.values())
+        return self.block.num_output_ports - len(self.open_output_ports)
 
     @property
     def open_input_ports(self) -> list[int]:
         """List of open input port indices."""
 
-        port_indices = list(range(self.block.num_input_ports))
-        for _, connection_port_indices in self.__incoming_connections.values():
-            for port_index in connection_port_indices:
-                port_indices.remove(port_index)
+        connected_ports = {p for _, ports in self.__incoming_connections.values() for p in ports}
+        return [p for p in range(self.block.num_input_ports) if p not in connected_ports]
 
-        return port_indices
+    @property
+    def open_output_ports(self) -> list[int]:
+        """List of open output port indices."""
+
+        connected_ports = {p for ports, _ in self.__outgoing_connections.values() for p in ports}
+        return [p for p in range(self.block.num_output_ports) if p not in connected_ports]
 
     def incoming_block_index(self, block: RFBlockReference) -> int:
         """Get the index of the incoming block in the list of incoming connections.
@@ -200,7 +203,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__outgoing_connections[input] = (_output_ports, _input_ports)
+        # Several groups of ports may be connected between the same pair of blocks
+        connected_outputs, connected_inputs = self.__outgoing_connections.get(input, ([], []))
+        self.__outgoing_connections[input] = (
+            [*connected_outputs, *_output_ports],
+            [*connected_inputs, *_input_ports],
+        )
 
     def connect_from(
         self, output: RFBlockReference, output_ports: int | list[int], input_ports: int | list[int]
@@ -224,7 +232,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__incoming_connections[output] = (_output_ports, _input_ports)
+        # Several groups of ports may be connected between the same pair of blocks
+        connected_outputs, connected_inputs = self.__incoming_connections.get(output, ([], []))
+        self.__incoming_connections[output] = (
+            [*connected_outputs, *_output_ports],
+            [*connected_inputs, *_input_ports],
+        )
 
     def propagate(self, state: RFBlockRealization, input: RFSignal) -> RFSignal:
         """Propagate a signal through the referenced block.
-- 
2.43.0


From ea4640e985d6afab8328ec1d0c533e5260925fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 091/170] fix: unconnected ports of radio-frequency chains

---
 hermespy/simulation/rf/chain.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 0d91e81..aaeabc4 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -572,16 +574,22 @@ class RFChain(RandomNode, Serializable):
             p += num_input_ports
 
         # Propagate back from the DSP output through the chain
-        num_output_ports = sum(b.block.num_output_ports for b in self.__rf_output_blocks)
+        # Only signals not feeding into another block are visible to the antennas
+        num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output.view(np.ndarray)[:] = 0.0
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__rf_output_blocks:
             block_output = self.__generate_output(
                 realization, num_samples, block, origin_inputs, block_outputs
             )
-            output[k : k + block_output.num_streams, :] = block_output
-            k += block_output.num_streams
+            num_block_samples = min(num_samples, block_output.num_samples)
+            num_block_streams = len(block.open_output_ports)
+            output[k : k + num_block_streams, :num_block_samples] = block_output[
+                block.open_output_ports, :num_block_samples
+            ]
+            k += num_block_streams
 
         return output
 
@@ -610,15 +618,19 @@ class RFChain(RandomNode, Serializable):
             p += num_block_input_ports
 
         # Propagate forward from the RF input through the chain
-        num_input_ports = sum(b.block.num_input_ports for b in self.__dsp_output_blocks)
-        output = RFSignal(num_input_ports, num_samples, realization.sampling_rate)
+        num_output_ports = sum(b.block.num_output_ports for b in self.__dsp_output_blocks)
+        output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output.view(np.ndarray)[:] = 0.0
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__dsp_output_blocks:
             block_output = self.__generate_output(
                 realization, num_samples, block, origin_inputs, block_outputs
             )
-            output[k : k + block_output.num_streams, : block_output.num_samples] = block_output
+            num_block_samples = min(num_samples, block_output.num_samples)
+            output[k : k + block_output.num_streams, :num_block_samples] = block_output[
+                :, :num_block_samples
+            ]
             k += block_output.num_streams
 
         return output
@@ -654,6 +666,7 @@ class RFChain(RandomNode, Serializable):
         block_input = RFSignal(
             block.block.num_input_ports, num_samples, chain_realization.sampling_rate
         )
+        block_input.view(np.ndarray)[:] = 0.0
         for impinging_signal, (output_ports, input_ports) in zip(
             connected_block_ouputs, block.incoming_connections.values()
         ):
-- 
2.43.0


From e31625a6c643f51991646cad5819a8b80b6a34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 092/170] fix: estimation of memory polynomial amplifiers from
 measurements

---
 hermespy/simulation/rf/blocks/amps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/amps.py b/hermespy/simulation/rf/blocks/amps.py
index 051aa8b..7b75366 100644
--- a/hermespy/simulation/rf/blocks/amps.py
+++ b/hermespy/simulation/rf/blocks/amps.py
@@ -723,7 +723,7 @@ class MemoryPolynomialPowerAmplifier(PowerAmplifier):
             .reshape(len(input_samples) - memory_len + 1, -1)
         )
         y_trimmed = output_samples[memory_len - 1 :]
-        coeffs_vector: np.ndarray = lstsq(features, y_trimmed, cond=-1)[0]
+        coeffs_vector: np.ndarray = lstsq(features, y_trimmed)[0]
         coeffs = coeffs_vector.reshape(memory_len, degree_len, order="F")
         return MemoryPolynomialPowerAmplifier(coeffs)
 
@@ -834,7 +834,7 @@ class MemoryCTPolynomialPowerAmplifier(PowerAmplifier):
             .T
         )
         y_trimmed = output_samples[memory_len - 1 :]
-        coeffs_vector: np.ndarray = lstsq(features, y_trimmed, cond=-1)[0]
+        coeffs_vector: np.ndarray = lstsq(features, y_trimmed)[0]
         coeffs = coeffs_vector.reshape(memory_len, (memory_len * (degree_len - 1) + 1), order="F")
         return MemoryCTPolynomialPowerAmplifier(coeff_matrix=coeffs)
 
-- 
2.43.0


From 7d6e4cd0c9978c30b205aab315d50ac427da18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 093/170] fix: root mean square amplitude of several streams

---
 hermespy/tools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/tools/math.py b/hermespy/tools/math.py
index 52c657b..32d70a9 100644
--- a/hermespy/tools/math.py
+++ b/hermespy/tools/math.py
@@ -103,7 +103,7 @@ def marcum_q(a: float, b: np.ndarray, m: float = 1.0):
 def rms_value(x: np.ndarray) -> float:  # pragma: no cover
     """Returns the root-mean-square value of a given input vector"""
 
-    return np.linalg.norm(x, 2) / np.sqrt(x.size)
+    return np.linalg.norm(x.flatten(), 2) / np.sqrt(x.size)
 
 
 def amplitude_path_loss(carrier_frequency: float, distance: float) -> float:
-- 
2.43.0


From 746c92de5602c00b8aa9e66bc61afb4adeda8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 094/170] fix: carrier frequencies of digitized signals

---
 hermespy/simulation/rf/blocks/ad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index a4e67b0..a3ae8d6 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -559,9 +559,9 @@ class ADC(ConverterBase, DSPOutputBlock):
         for f in range(num_frames):
             frame_signal = input[:, f * num_frame_samples : (f + 1) * num_frame_samples]
             converted_frame_signal = self.__convert_frame(frame_signal)
-            converted_signal[:, f * num_frame_samples : (f + 1) * num_frame_samples] = (
-                converted_frame_signal
-            )
+            converted_signal.view(np.ndarray)[
+                :, f * num_frame_samples : (f + 1) * num_frame_samples
+            ] = converted_frame_signal.view(np.ndarray)
 
         return converted_signal
 
-- 
2.43.0


From a0c45aea7adc6ba7322e16a5b1a84a7471e9f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 095/170] fix: repeated streams of radio-frequency signals

---
 hermespy/simulation/rf/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index 45728bf..d6c2ac6 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -125,13 +125,14 @@ class RFSignal(DenseSignal):
         DenseSignal.__array_finalize__(self, obj)
 
         # Recover additional attributes lost in numpy view/copy operations
-        if hasattr(obj, "carrier_frequencies"):
+        # Operations may repeat streams, in which case the signal-wide values are recovered
+        if hasattr(obj, "carrier_frequencies") and obj.carrier_frequencies.size >= self.num_streams:
             self.carrier_frequencies = obj.carrier_frequencies[: self.num_streams].copy()  # type: ignore
         else:
             self.carrier_frequencies = np.full(
                 (self.num_streams,), self.carrier_frequency, np.float64
             )
-        if hasattr(obj, "noise_powers"):
+        if hasattr(obj, "noise_powers") and obj.noise_powers.size >= self.num_streams:
             self.noise_powers = obj.noise_powers[: self.num_streams].copy()  # type: ignore
         else:
             self.noise_powers = np.full((self.num_streams,), self.noise_power, np.float64)
-- 
2.43.0


From 6e1180c5b12d24a3dbbcc855184603ab21261405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 096/170] fix: noise added to sparse and radio-frequency
 signals

---
 hermespy/simulation/rf/noise/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/noise/model.py b/hermespy/simulation/rf/noise/model.py
index 90e9614..85ec67f 100644
--- a/hermespy/simulation/rf/noise/model.py
+++ b/hermespy/simulation/rf/noise/model.py
@@ -6,7 +6,10 @@ from sys import maxsize
 from typing import Generic, Type, TypeVar
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
+    DenseSignal,
     RandomNode,
     RandomRealization,
     Serializable,
@@ -14,6 +17,7 @@ from hermespy.core import (
     DeserializationProcess,
 )
 from hermespy.core.signal_model import ST
+from ..signal import RFSignal
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -152,10 +156,12 @@ class AWGNRealization(NoiseRealization):
             rng.standard_normal(signal.shape) + 1j * rng.standard_normal(signal.shape)
         )
 
-        noisy_signal = signal.copy()
-        for block in noisy_signal.blocks:
-            block += noise_samples  # type: ignore
+        # The noise occupies the whole duration, so that sparse signals become dense
+        noisy_signal = signal.copy() if isinstance(signal, DenseSignal) else signal.to_dense()  # type: ignore
+        noisy_signal.view(np.ndarray)[...] += noise_samples
         noisy_signal.noise_power = self.power
+        if isinstance(noisy_signal, RFSignal):
+            noisy_signal.noise_powers = np.full(noisy_signal.num_streams, self.power, np.float64)
 
         return noisy_signal
 
-- 
2.43.0


From 5e0c50c3c646e9ad427356be0a42582fa786d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 097/170] fix: signals created from several sample arrays

---
 hermespy/core/signal_model.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index ce5669d..bbe393a 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -866,6 +866,20 @@ class Signal(ABC, Iterable, Serializable):
         """Set an np.ndarray of samples into the model."""
         ...  # pragma: no cover
 
+    @staticmethod
+    def _array_to_block(samples: np.ndarray, offset: int) -> SignalBlock:
+        """Convert a plain sample array to a signal block.
+
+        Args:
+            samples: Matrix of samples, or a vector of a single stream's samples.
+            offset: Offset of the block in samples.
+
+        Returns: The signal block.
+        """
+
+        matrix = np.atleast_2d(samples).astype(np.complex128)
+        return SignalBlock(matrix.shape[0], matrix.shape[1], offset, matrix.tobytes())
+
     @staticmethod
     def Create(
         samples: np.ndarray[tuple[int, int], np.dtype[np.complex128]] | Sequence[SignalBlock],
@@ -902,6 +916,12 @@ class Signal(ABC, Iterable, Serializable):
         if isinstance(samples, Sequence) and (
             len(samples) != 1 or getattr(samples[0], "offset", 0) > 0
         ):
+            # Place plain arrays at their requested offsets
+            if offsets is not None and not any(isinstance(s, SignalBlock) for s in samples):
+                if len(offsets) != len(samples):
+                    raise ValueError("The number of offsets must match the number of arrays")
+                samples = [Signal._array_to_block(s, o) for s, o in zip(samples, offsets)]
+
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
         dense_delay = delay
@@ -1661,8 +1681,13 @@ class SparseSignal(Signal):
         if isinstance(samples, np.ndarray):
             self.__blocks = self.__from_dense(samples, 0)
         else:
-            self.__blocks = list(samples)
-
+            # Plain arrays follow each other sequentially
+            end = 0
+            for block in samples:
+                if not isinstance(block, SignalBlock):
+                    block = Signal._array_to_block(block, end)
+                self.__blocks.append(block)
+                end = block.end
     @override
     def __mul__(self, value: complex) -> SparseSignal:
         return SparseSignal(
-- 
2.43.0


From 9a6093d94d6b5aa7955f88163d96966f9c183316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 098/170] fix: order of encoders and decoders passed to devices

---
 hermespy/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..5be70b5 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1169,7 +1169,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else transmit_encoding
             )
             for encoder in _tx_encoders:
-                self.__transmit_coding[-1] = encoder
+                self.__transmit_coding[len(self.__transmit_coding)] = encoder
 
         # Initialize digital receive decoding layer
         self.__receive_coding = ReceiveSignalCoding()
@@ -1180,7 +1180,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else receive_decoding
             )
             for decoder in _rx_decoders:
-                self.__receive_coding[-1] = decoder
+                self.__receive_coding[len(self.__receive_coding)] = decoder
 
         # Initialize other various class attributes
         self.__input_callbacks = Hookable()
-- 
2.43.0


From 6d14bbdd83ec820de8d1b1252d2c752af67d03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 099/170] fix: superposition of several signals received by a
 device

---
 hermespy/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 5be70b5..31c4a57 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1520,7 +1520,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
-- 
2.43.0


From 917cbab57761e43a3f987a86e09efa60c23cc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 100/170] fix: ports selected by transmit operators

---
 hermespy/core/device.py                 | 92 ++++++++++++++++++++++---
 hermespy/simulation/simulated_device.py | 25 +++----
 2 files changed, 95 insertions(+), 22 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 31c4a57..3e464f3 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1390,6 +1390,79 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
         _state = self.state() if state is None else state
         return [transmitter.transmit(_state, 0.0, notify) for transmitter in self.transmitters]
 
+    @staticmethod
+    def _map_to_ports(signal: Signal, ports: Sequence[int] | None, num_ports: int) -> Signal:
+        """Map the streams generated by a transmit operator to the ports selected by the operator.
+
+        Args:
+            signal: Signal generated by the operator. Not altered.
+            ports:
+                Indices of the selected ports.
+                If `None`, the signal's streams are expected to equal the ports.
+            num_ports: Number of available ports.
+
+        Returns: A new signal featuring `num_ports` streams if ports were selected.
+
+        Raises:
+            ValueError: If the number of streams matches neither the selected nor the available ports.
+        """
+
+        if ports is None:
+            return signal.copy()
+
+        selected_ports = list(ports)
+        dense_signal = signal.to_dense()
+        samples = dense_signal.view(np.ndarray)
+        if dense_signal.num_streams != len(selected_ports):
+            if dense_signal.num_streams != num_ports:
+                raise ValueError(
+                    f"Number of transmitted streams does not match the number of selected ports ({dense_signal.num_streams} != {len(selected_ports)})"
+                )
+
+            # The operator generated samples for all available ports
+            samples = samples[selected_ports, :]
+
+        port_samples = np.zeros((num_ports, dense_signal.num_samples), np.complex128)
+        port_samples[selected_ports, :] = samples
+        return Signal.Create(
+            port_samples,
+            dense_signal.sampling_rate,
+            dense_signal.carrier_frequency,
+            dense_signal.noise_power,
+            dense_signal.delay,
+        )
+
+    @staticmethod
+    def _superimpose_transmissions(
+        transmissions: Sequence[Transmission | None],
+        ports: Sequence[Sequence[int] | None],
+        base: Signal,
+        resample: bool,
+    ) -> Signal:
+        """Superimpose the signals generated by multiple transmit operators.
+
+        Args:
+            transmissions: Transmissions generated by the operators. Not altered.
+            ports: Ports selected by each operator.
+            base: Empty signal featuring the number of ports and sampling rate of the superposition.
+            resample: Allow for resampling to the base's sampling rate.
+
+        Returns: The superposition.
+        """
+
+        port_signals = [
+            Device._map_to_ports(t.signal, p, base.num_streams)
+            for t, p in zip(transmissions, ports)
+            if t is not None
+        ]
+
+        # Start with the earliest signal, since superpositions keep the start time
+        superposition = base
+        for signal in sorted(port_signals, key=lambda s: s.delay):
+            superposition = superposition.superimpose(signal, resample=resample)
+
+        return superposition
+
     def generate_output(
         self,
         operator_transmissions: Sequence[Transmission],
@@ -1431,18 +1504,17 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
         operator_streams = [o.selected_transmit_ports for o in self.transmitters]
 
         # Superimpose the operator transmissions to the device's RF configuration
-        superimposed_signal = Signal.Empty(
-            _state.sampling_rate,
-            self.num_transmit_dsp_ports,
-            carrier_frequency=_state.carrier_frequency,
+        superimposed_signal = self._superimpose_transmissions(
+            operator_transmissions,
+            operator_streams,
+            Signal.Empty(
+                _state.sampling_rate,
+                self.num_transmit_dsp_ports,
+                carrier_frequency=_state.carrier_frequency,
+            ),
+            resample,
         )
 
-        for transmission, indices in zip(operator_transmissions, operator_streams):
-            if transmission is not None:
-                superimposed_signal = superimposed_signal.superimpose(
-                    transmission.signal, resample=resample, stream_indices=indices
-                )
-
         # Apply the transmit coding
         encoded_signal = self.transmit_coding.encode_streams(
             superimposed_signal, _state.transmit_state(list(range(self.num_transmit_antennas)))
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..030db5c 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1644,25 +1644,26 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
 
         # If operator separation is enabled, each operator transmission is processed independetly
         if self.operator_separation:
-            for t in operator_transmissions:
-                emerging_signal, leaking_signal = self._simulate_output(t.signal, _state)
+            for t, ports in zip(operator_transmissions, _operator_transmit_ports):
+                port_signal = self._map_to_ports(t.signal, ports, _state.num_transmit_dsp_ports)
+                coded_signal = (
+                    self.transmit_coding.encode_streams(port_signal, _state.transmit_state())
+                    if _state.num_transmit_dsp_ports > 0
+                    else port_signal
+                )
+                emerging_signal, leaking_signal = self._simulate_output(coded_signal, _state)
                 emerging_signals.append(emerging_signal)
                 leaking_signals.append(leaking_signal)
 
         # If operator separation is disable, the transmissions are superimposed to a single signal model
         else:
-            superimposed_dsp_output = DenseSignal(
-                _state.num_transmit_dsp_ports, 0, _state.sampling_rate
+            superimposed_dsp_output = self._superimpose_transmissions(
+                operator_transmissions,
+                _operator_transmit_ports,
+                DenseSignal(_state.num_transmit_dsp_ports, 0, _state.sampling_rate),
+                resample,
             )
 
-            for transmission, stream_indices in zip(
-                operator_transmissions, _operator_transmit_ports
-            ):
-                if transmission:
-                    superimposed_dsp_output = superimposed_dsp_output.superimpose(
-                        transmission.signal, resample=resample, stream_indices=stream_indices
-                    )
-
             # Apply the transmit coding
             encoded_signal: Signal = (
                 self.transmit_coding.encode_streams(
-- 
2.43.0


From 49e414f4e3fc9a59a41527f20f0232b43ddf0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 101/170] fix: delays of signals transmitted over
 radio-frequency chains

---
 hermespy/simulation/rf/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index aaeabc4..fa544e0 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -576,7 +576,9 @@ class RFChain(RandomNode, Serializable):
         # Propagate back from the DSP output through the chain
         # Only signals not feeding into another block are visible to the antennas
         num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
-        output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output = RFSignal(
+            num_output_ports, num_samples, realization.sampling_rate, delay=_dsp_output.delay
+        )
         output.view(np.ndarray)[:] = 0.0
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
-- 
2.43.0


From a396a5b21a448b094c760be7afd50b434b01fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 102/170] fix: rounding of trigger delays to samples

---
 hermespy/simulation/simulated_device.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 030db5c..ee84e0c 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 from itertools import chain
+from math import floor
 from typing import Set, Type
 from typing_extensions import override
 
@@ -66,6 +67,25 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
+def _floor_samples(num_samples: float) -> int:
+    """Round to the nearest smaller integer number of samples.
+
+    Integer multiples of the sampling interval computed with limited floating point precision
+    are considered to be exact.
+
+    Args:
+        num_samples: Number of samples.
+
+    Returns: Integer number of samples.
+    """
+
+    nearest = round(num_samples)
+    if abs(num_samples - nearest) <= 1e-6 + 1e-12 * abs(num_samples):
+        return int(nearest)
+
+    return floor(num_samples)
+
+
 class TriggerRealization(Serializable):
     """Realization of a trigger model.
 
@@ -144,7 +164,8 @@ class TriggerRealization(Serializable):
                 f"Sampling rate must be greater or equal to zero (not {sampling_rate})"
             )
 
-        return int((self.trigger_delay - initial_delay) * sampling_rate)
+        # Consider the limited floating point precision before rounding to smaller integers
+        return _floor_samples((self.trigger_delay - initial_delay) * sampling_rate)
 
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.num_offset_samples, "num_offset_samples")
@@ -346,7 +367,7 @@ class TimeOffsetTrigger(TriggerModel):
             )
 
         sampling_rate = list(self.devices)[0].sampling_rate
-        num_offset_samples = int(self.offset * sampling_rate)
+        num_offset_samples = _floor_samples(self.offset * sampling_rate)
 
         return TriggerRealization(num_offset_samples, sampling_rate)
 
-- 
2.43.0


From f97cd12db9d7b864a785378e6e6db8119f0ce98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 103/170] fix: reception of device outputs triggered at
 different times

---
 hermespy/simulation/simulated_device.py | 62 ++++++++-----------------
 1 file changed, 20 insertions(+), 42 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index ee84e0c..fd93938 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1902,58 +1902,36 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         mixed_signal: Signal
 
         if isinstance(impinging_signals, SimulatedDeviceOutput):
-            mixed_signal = impinging_signals.mixed_signal
             _impinging_signals = impinging_signals.emerging_signals
 
-        else:
-            if isinstance(impinging_signals, DeviceInput):
-                _impinging_signals = impinging_signals.impinging_signals
-
-            elif isinstance(impinging_signals, Signal):
-                _impinging_signals = [impinging_signals]
+        elif isinstance(impinging_signals, DeviceInput):
+            _impinging_signals = impinging_signals.impinging_signals
 
-            elif isinstance(impinging_signals, Sequence):
-                _impinging_signals = impinging_signals  # type: ignore
-
-            else:
-                raise ValueError("Unsupported type of impinging signals")
+        elif isinstance(impinging_signals, Signal):
+            _impinging_signals = [impinging_signals]
 
-            mixed_signal = SparseSignal.Empty(
-                self.sampling_rate,
-                self.num_receive_antennas,
-                carrier_frequency=self.carrier_frequency,
-                delay=_trigger_realization.trigger_delay,
-            )
-            for signal in _impinging_signals:
-                mixed_signal = mixed_signal.superimpose(signal)
+        elif isinstance(impinging_signals, Sequence):
+            _impinging_signals = impinging_signals  # type: ignore
 
-            # Cast to dense if only a single block is present
-            if mixed_signal.num_blocks < 2:
-                mixed_signal = mixed_signal.to_dense()
+        else:
+            raise ValueError("Unsupported type of impinging signals")
 
-        # Correct the trigger realization
-        synchronized_signal = mixed_signal
-        num_trigger_offset_samples = _trigger_realization.compute_num_offset_samples(
-            self.sampling_rate, mixed_signal.delay
+        # The reception starts at the trigger, earlier samples are not received
+        mixed_signal = SparseSignal.Empty(
+            self.sampling_rate,
+            self.num_receive_antennas,
+            carrier_frequency=self.carrier_frequency,
+            delay=_trigger_realization.trigger_delay,
         )
+        for signal in _impinging_signals:
+            mixed_signal = mixed_signal.superimpose(signal)
 
-        if num_trigger_offset_samples > 0:
-            synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
-        elif num_trigger_offset_samples < 0:
-            synchronized_signal = DenseSignal.Zeros(
-                signal.num_streams,
-                num_trigger_offset_samples,
-                signal.sampling_rate,
-                signal.carrier_frequency,
-                signal.noise_power,
-            ).append_samples(synchronized_signal)
-
-        synchronized_signal.delay = (
-            mixed_signal.delay - num_trigger_offset_samples * self.sampling_rate
-        )
+        # Cast to dense if only a single block is present
+        if mixed_signal.num_blocks < 2:
+            mixed_signal = mixed_signal.to_dense()
 
         # Apply mutual coupling model during signal reception
-        coupled_signal = self.coupling.receive(synchronized_signal, _state)
+        coupled_signal = self.coupling.receive(mixed_signal, _state)
 
         # Model the antenna array's receive behaviour
         antenna_outputs = self.antennas.receive(coupled_signal)
-- 
2.43.0


From 835b1fae76b7c6242db429c36083d0d6e88486de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 104/170] fix: leakage of several separately transmitted
 signals

---
 hermespy/simulation/simulated_device.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index fd93938..a59f7db 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1937,10 +1937,17 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         antenna_outputs = self.antennas.receive(coupled_signal)
 
         # Model the configured antenna array's input behaviour
-        # Hack: Only consider the first leaking signal
-        leaking_signal = (
-            leaking_signals[0] if isinstance(leaking_signals, Sequence) else leaking_signals
-        )
+        _leaking_signals: Sequence[Signal] = []
+        if isinstance(leaking_signals, Signal):
+            _leaking_signals = [leaking_signals]
+        elif leaking_signals is not None:
+            _leaking_signals = leaking_signals
+
+        leaking_signal: Signal | None = None
+        for signal in _leaking_signals:
+            leaking_signal = (
+                signal.copy() if leaking_signal is None else leaking_signal.superimpose(signal)
+            )
 
         # Model the rf chain's receive behaviour
         rf_input = (
-- 
2.43.0


From dfe793fc40036b66813b8cc4e09301ba2ae1bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 105/170] fix: reception of signals by devices separating their
 operators

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index a59f7db..4021067 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -835,7 +835,7 @@ class ProcessedSimulatedDeviceInput(ProcessedDeviceInput, SimulatedDeviceReceive
 
                     _impinging_signals.append(superposition)  # type: ignore
 
-            elif not operator_separation and isinstance(impinging_signals[0], Signal):
+            elif isinstance(impinging_signals[0], Signal):
                 _impinging_signals = impinging_signals  # type: ignore
 
             else:
-- 
2.43.0


From e736c36a601b49cab23e0f341e3ad2a81caaec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 106/170] fix: negative delays of normally distributed triggers

---
 hermespy/simulation/simulated_device.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 4021067..04a4e75 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -485,7 +485,8 @@ class NormalTrigger(TriggerModel):
         # Select the proper random number generator
         _rng = self._rng if rng is None else rng
 
-        trigger_delay = int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate)
+        # Frames may not start before their drop
+        trigger_delay = max(0, int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate))
         return TriggerRealization(trigger_delay, sampling_rate)
 
     @override
-- 
2.43.0


From b844d7bd8ff5bb7bcd33d81bf70f1335a8e6eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 107/170] fix: impedance coupling of antenna arrays

---
 hermespy/simulation/coupling/impedance.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/coupling/impedance.py b/hermespy/simulation/coupling/impedance.py
index 97b5301..8668edf 100644
--- a/hermespy/simulation/coupling/impedance.py
+++ b/hermespy/simulation/coupling/impedance.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING
 from typing_extensions import override
 
 import numpy as np
+from scipy.linalg import fractional_matrix_power, sqrtm
 
 from hermespy.core import DeserializationProcess, SerializationProcess, SignalBlock
 from .coupling import Coupling
@@ -178,7 +179,9 @@ class ImpedanceCoupling(Coupling):
             else self.transmit_correlation
         )
 
-        transmit_coupling = transmit_impedance.real**-0.5 @ transmit_correlation**0.5
+        transmit_coupling = fractional_matrix_power(transmit_impedance.real, -0.5) @ sqrtm(
+            transmit_correlation
+        )
         transmitted_samples = transmit_coupling @ signal
 
         return SignalBlock(
@@ -206,9 +209,9 @@ class ImpedanceCoupling(Coupling):
         receive_coupling = (
             2
             * receive_impedance[0, 0].real
-            * matching_impedance.real**0.5
-            @ np.linalg.inv(matching_impedance + receive_correlation)
-            @ receive_correlation**0.5
+            * sqrtm(matching_impedance.real)
+            @ np.linalg.inv(matching_impedance + receive_impedance)
+            @ sqrtm(receive_correlation)
         )
         received_samples = receive_coupling @ signal
         return SignalBlock(
-- 
2.43.0


From 3c6f981341dbbed77e01995e3fdf4d22e9d50d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 108/170] fix: removal of isolation specifications

---
 hermespy/simulation/isolation/specific.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/isolation/specific.py b/hermespy/simulation/isolation/specific.py
index 896db2e..45d4434 100644
--- a/hermespy/simulation/isolation/specific.py
+++ b/hermespy/simulation/isolation/specific.py
@@ -70,6 +70,7 @@ class SpecificIsolation(ScalarDimension, Isolation):
     ) -> None:
         if value is None:
             self.__isolation = None
+            self.__leakage_factors = None
             return
 
         if isinstance(value, (float, int)):
-- 
2.43.0


From 0102435b6bd3bb531ec182fcbe83a0e671a9a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 109/170] fix: frequency-selective leakage of empty signals and
 its variance

---
 hermespy/simulation/isolation/selective.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/isolation/selective.py b/hermespy/simulation/isolation/selective.py
index 3c47e9c..a552092 100644
--- a/hermespy/simulation/isolation/selective.py
+++ b/hermespy/simulation/isolation/selective.py
@@ -87,7 +87,7 @@ class SelectiveLeakage(Isolation):
 
         frequency_response = np.random.normal(
             np.sqrt(0.5) * mean,
-            variance,
+            np.sqrt(variance),
             (
                 device.antennas.num_receive_antennas,
                 device.antennas.num_transmit_antennas,
@@ -95,7 +95,7 @@ class SelectiveLeakage(Isolation):
             ),
         ) + 1j * np.random.normal(
             np.sqrt(0.5) * mean,
-            variance,
+            np.sqrt(variance),
             (
                 device.antennas.num_receive_antennas,
                 device.antennas.num_transmit_antennas,
@@ -120,6 +120,16 @@ class SelectiveLeakage(Isolation):
         return self.__leakage_response
 
     def _leak(self, signal: Signal) -> Signal:
+        # Nothing is leaked if nothing is transmitted
+        if signal.num_samples < 1:
+            return DenseSignal.Empty(
+                signal.sampling_rate,
+                self.leakage_response.shape[0],
+                carrier_frequency=signal.carrier_frequency,
+                noise_power=signal.noise_power,
+                delay=signal.delay,
+            )
+
         num_leaked_samples = self.leakage_response.shape[2] + signal.num_samples - 1
         leaking_samples = np.zeros(
             (self.leakage_response.shape[0], num_leaked_samples), dtype=np.complex128
-- 
2.43.0


From 9b91b91f92afa4567fc2dde7dda304bd4a049cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 110/170] fix: power of signals leaking from transmitting
 devices

---
 hermespy/simulation/simulated_device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 04a4e75..0a3f94d 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1708,9 +1708,9 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         for signal in chain(emerging_signals, leaking_signals):
             signal.delay += trigger_realization.trigger_delay
 
-        # Scale the emerging signals by the device's power
+        # Scale the emerging and leaking signals by the device's power
         # This assumes that the expected power of each signal is 1.0
-        for signal in emerging_signals:
+        for signal in chain(emerging_signals, leaking_signals):
             for block in signal.blocks:
                 block *= self.power**0.5  # type: ignore[misc]
 
-- 
2.43.0


From 1adde804a167b549330287114d60b01391b23f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 111/170] fix: order of devices sharing a trigger

---
 hermespy/simulation/simulated_device.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 0a3f94d..38181c2 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2,10 +2,10 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from collections.abc import Sequence
+from collections.abc import Sequence, Set
 from itertools import chain
 from math import floor
-from typing import Set, Type
+from typing import Type
 from typing_extensions import override
 
 import numpy as np
@@ -183,14 +183,14 @@ class TriggerRealization(Serializable):
 class TriggerModel(Serializable, RandomNode):
     """Base class for all trigger models."""
 
-    __devices: Set[SimulatedDevice]
+    __devices: dict[SimulatedDevice, None]  # Insertion-ordered set of controlled devices
 
     def __init__(self) -> None:
         # Initialize base classes
         RandomNode.__init__(self)
 
         # Initialize class attributes
-        self.__devices = set()
+        self.__devices = dict()
 
     def add_device(self, device: SimulatedDevice) -> None:
         """Add a new device to be controlled by this trigger.
@@ -203,7 +203,7 @@ class TriggerModel(Serializable, RandomNode):
         if device.trigger_model is not self:
             device.trigger_model = self
 
-        self.__devices.add(device)
+        self.__devices[device] = None
 
     def remove_device(self, device: SimulatedDevice) -> None:
         """Remove a device from being controlled by this trigger.
@@ -213,7 +213,7 @@ class TriggerModel(Serializable, RandomNode):
             device: The device to be removed.
         """
 
-        self.__devices.discard(device)
+        self.__devices.pop(device, None)
 
     @property
     def num_devices(self) -> int:
@@ -223,9 +223,12 @@ class TriggerModel(Serializable, RandomNode):
 
     @property
     def devices(self) -> Set[SimulatedDevice]:
-        """Set of devices controlled by this trigger."""
+        """Set of devices controlled by this trigger.
 
-        return self.__devices
+        Iterated in the order in which the devices were added.
+        """
+
+        return self.__devices.keys()
 
     @abstractmethod
     def realize(self, rng: np.random.Generator | None = None) -> TriggerRealization:
-- 
2.43.0


From bf54c0c8d2786e74a10ea594071bfb61604632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 112/170] fix: anti-aliasing of short signals in
 radio-frequency blocks

---
 hermespy/simulation/rf/block.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index e04281c..4f9c38d 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -212,13 +212,17 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
             )
 
             # Append zeros to the propagated signal if it is too short to be filtered with the anti-aliasing filter
-            if propagated_signal.num_samples < (antialiasing_filter_sos.shape[1] + 1) * 4:
+            # The edge extension during filtering covers three times the number of filter taps
+            min_num_samples = max(
+                (antialiasing_filter_sos.shape[1] + 1) * 4,
+                3 * (2 * antialiasing_filter_sos.shape[0] + 1) + 1,
+            )
+            if propagated_signal.num_samples < min_num_samples:
                 padded_samples = propagated_signal.append_samples(
                     np.zeros(
                         (
                             propagated_signal.num_streams,
-                            (antialiasing_filter_sos.shape[1] + 1) * 4
-                            - propagated_signal.num_samples,
+                            min_num_samples - propagated_signal.num_samples,
                         ),
                         dtype=np.complex128,
                     )
-- 
2.43.0


From 8c00c9c94cd69ff062ea32602bd43e4abf9422bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 113/170] fix: sparse signals transmitted and received by
 antenna arrays

---
 hermespy/simulation/antennas.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index cf88847..d228ba9 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -297,9 +297,15 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             )
 
         # Simulate antenna transmission for all antennas
-        antenna_signals = signal.copy()
+        samples = np.zeros((signal.num_streams, signal.num_samples), dtype=np.complex128)
         for idx, (stream, antenna) in enumerate(zip(signal, self.transmit_antennas)):
-            antenna_signals[idx, :] = antenna.transmit(stream)
+            # Sparse signals do not represent trailing zeros
+            antenna_signal = antenna.transmit(stream).to_dense()
+            samples[idx, : antenna_signal.num_samples] = antenna_signal
+
+        antenna_signals = signal.copy()
+        for block in antenna_signals.blocks:
+            block[:, :] = samples[:, block.offset : block.end]
 
         return antenna_signals
 
@@ -319,9 +325,15 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             )
 
         # Simulate antenna reception for all antennas
-        antenna_outputs = signal.copy()
+        samples = np.zeros((signal.num_streams, signal.num_samples), dtype=np.complex128)
         for idx, (stream, antenna) in enumerate(zip(signal, self.receive_antennas)):
-            antenna_outputs[idx, :] = antenna.receive(stream)
+            # Sparse signals do not represent trailing zeros
+            antenna_output = antenna.receive(stream).to_dense()
+            samples[idx, : antenna_output.num_samples] = antenna_output
+
+        antenna_outputs = signal.copy()
+        for block in antenna_outputs.blocks:
+            block[:, :] = samples[:, block.offset : block.end]
 
         return antenna_outputs
 
-- 
2.43.0


From e8c014b69732a1bdc952359c436aeff4fa8d736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 114/170] fix: signals altered by superpositions onto empty
 signals

---
 hermespy/core/signal_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index bbe393a..b8f238a 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1478,9 +1478,10 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         if stream_indices is None:
             stream_indices = slice(None)
 
-        # If this signal is empty, simply return the added signal
+        # If this signal is empty, simply return a copy of the added signal
+        # The added signal itself must not be altered by further superpositions
         if self.size < 1:
-            return added_signal
+            return added_signal.copy()
 
         # Resample the added signal to the target sampling rate
         if added_signal.sampling_rate != self.sampling_rate:
-- 
2.43.0


From 0673cd67ed31f077e4a71896626aaf135a9f12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 115/170] fix: start of receptions consisting of leakage

---
 hermespy/simulation/simulated_device.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 38181c2..5bb1341 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1948,17 +1948,25 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             _leaking_signals = leaking_signals
 
         leaking_signal: Signal | None = None
-        for signal in _leaking_signals:
+        # Start with the earliest signal, since superpositions keep the start time
+        for signal in sorted(_leaking_signals, key=lambda s: s.delay):
             leaking_signal = (
                 signal.copy() if leaking_signal is None else leaking_signal.superimpose(signal)
             )
 
         # Model the rf chain's receive behaviour
-        rf_input = (
-            antenna_outputs.superimpose(leaking_signal)
-            if leaking_signal is not None
-            else antenna_outputs
-        )
+        # The reception starts with the trigger, even if nothing but leakage is received
+        rf_input = antenna_outputs
+        if leaking_signal is not None:
+            rf_input = SparseSignal.Empty(
+                self.sampling_rate,
+                self.num_receive_antennas,
+                carrier_frequency=self.carrier_frequency,
+                delay=_trigger_realization.trigger_delay,
+            )
+            for signal in (antenna_outputs, leaking_signal):
+                rf_input = rf_input.superimpose(signal)
+
         rf_output = self.rf.receive(rf_input.to_dense(), _state.rf)
 
         # Generate individual operator inputs
-- 
2.43.0


From f4bdb6e2add560df5650ef726e6a712b8f7ceb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 116/170] fix: superposition of separately transmitted signals

---
 hermespy/simulation/simulated_device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 5bb1341..687cc3f 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -565,6 +565,8 @@ class SimulatedDeviceOutput(DeviceOutput):
                     f"Emerging signal has unexpected carrier frequency ({signal.carrier_frequency} instead of {carrier_frequency})"
                 )
 
+        # Start with the earliest signal, since superpositions keep the start time
+        for signal in sorted(_emerging_signals, key=lambda s: s.delay):
             superimposed_signal = superimposed_signal.superimpose(signal)
 
         # Initialize attributes
-- 
2.43.0


From 5b93f22bbcd8408e6ceffa3ecc95dbe294af69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 117/170] fix: conventional beamforming of rotated antenna
 arrays

---
 hermespy/beamforming/conventional.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index f462807..4b3c413 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -4,9 +4,8 @@ from __future__ import annotations
 from typing_extensions import override
 
 import numpy as np
-from scipy.constants import pi, speed_of_light
 
-from hermespy.core import AntennaArrayState, DeserializationProcess, Direction, SerializationProcess
+from hermespy.core import AntennaArrayState, AntennaMode, DeserializationProcess, SerializationProcess
 from .beamformer import TransmitBeamformer, ReceiveBeamformer
 
 
@@ -76,18 +75,12 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
             with the first dimension being the number of angles and the second dimension the number of antennas.
         """
 
-        # Query topology of receiving antenna ports
-        topology = (
-            np.array([p.global_position for p in array.receive_antennas], dtype=np.float64)
-            - array.global_position
-        )
-
         # Build receive beamforming codebook of steering vectors for each angle of interest
         book = np.empty((angles.shape[0], array.num_receive_antennas), dtype=complex)
         for n, (azimuth, zenith) in enumerate(angles):
-            direction = Direction.From_Spherical(azimuth, zenith)
-            weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
-            book[n, :] = weights
+            book[n, :] = array.spherical_phase_response(
+                carrier_frequency, azimuth, zenith, AntennaMode.RX
+            ).conj()
 
         return book / array.num_receive_antennas
 
@@ -102,13 +95,9 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         azimuth, zenith = focus_angles[0, :]
 
         # Compute conventional beamformer weights
-        topology = (
-            np.array([p.global_position for p in array.transmit_antennas], dtype=np.float64)
-            - array.global_position
-        )
-        direction = Direction.From_Spherical(azimuth, zenith)
-        # Conventional steering vector
-        weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
+        weights = array.spherical_phase_response(
+            carrier_frequency, azimuth, zenith, AntennaMode.TX
+        ).conj()
 
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
-- 
2.43.0


From c4a504d3ac7865ba92b2371524115dc43752f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 118/170] fix: direction focused by null steering beamformers

---
 .../beamforming/nullsteeringbeamformer.py     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 22e1260..075ea39 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -7,7 +7,7 @@ import numpy as np
 from scipy.linalg import pinvh
 
 from hermespy.beamforming import TransmitBeamformer, ReceiveBeamformer
-from hermespy.core import AntennaArrayState, DeserializationProcess, SerializationProcess
+from hermespy.core import AntennaArrayState, AntennaMode, DeserializationProcess, SerializationProcess
 
 __author__ = "Alan Thomas"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -49,23 +49,27 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     # calculate the null steering beamformer weights
     def _weights(
-        self, carrier_frequency: float, focus_angles: np.ndarray, array: AntennaArrayState
+        self,
+        carrier_frequency: float,
+        focus_angles: np.ndarray,
+        array: AntennaArrayState,
+        mode: AntennaMode,
     ) -> np.ndarray:
 
         a0 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1]
+            carrier_frequency, focus_angles[0, 0], focus_angles[0, 1], mode
         )
         a1 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1]
+            carrier_frequency, focus_angles[1, 0], focus_angles[1, 1], mode
         )
         a2 = array.spherical_phase_response(
-            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1]
+            carrier_frequency, focus_angles[2, 0], focus_angles[2, 1], mode
         )
 
         A = np.array([a1, a2]).T
         PA = A.conj() @ pinvh(A.T @ A.conj(), check_finite=False) @ A.T
         Identity_Matrix = np.eye(PA.shape[0])
-        wns = (Identity_Matrix - PA) @ a0
+        wns = (Identity_Matrix - PA) @ a0.conj()
         wns /= np.linalg.norm(wns)
         return wns
 
@@ -78,7 +82,7 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
     ) -> np.ndarray:
 
         # Compute nullsteering beamformer weights
-        weights = self._weights(carrier_frequency, focus_angles, array)
+        weights = self._weights(carrier_frequency, focus_angles, array, AntennaMode.TX)
         # Weight the streams accordingly
         samples = weights[:, np.newaxis] @ samples
 
@@ -95,7 +99,9 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
         # Query the sensor array response vectors for the angles of interest and create a dictionary from it which contains the beamforming weights
         dictionary = np.empty((array.num_receive_antennas, angles.shape[0]), dtype=complex)
         for d, focus in enumerate(angles):
-            dictionary[:, d] = self._weights(carrier_frequency, focus, array)
+            dictionary[:, d] = self._weights(
+                carrier_frequency, focus, array, AntennaMode.RX
+            )
 
         beamformed_samples = dictionary.T @ samples
         return beamformed_samples[:, np.newaxis, :]
-- 
2.43.0


From 3a5456d15e5d16d05e65f4c1ac4e0daa2a251843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 119/170] fix: devices focused by rotated devices

---
 hermespy/simulation/beamforming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/beamforming.py b/hermespy/simulation/beamforming.py
index 0654a00..9adef5b 100644
--- a/hermespy/simulation/beamforming.py
+++ b/hermespy/simulation/beamforming.py
@@ -52,10 +52,14 @@ class DeviceFocus(BeamFocus):
         self.__focused_device = value
 
     def spherical_angles(self, device: State) -> np.ndarray:
-        transmitter_position = device.position
         receiver_position = self.focused_device.trajectory.sample(device.timestamp).pose.translation
 
-        direction = Direction.From_Cartesian(receiver_position - transmitter_position, True)
+        # Position of the focused device from the focusing device's point of view
+        local_position = device.antennas.backwards_transformation.transform_position(
+            receiver_position
+        )
+
+        direction = Direction.From_Cartesian(local_position, True)
         return direction.to_spherical()
 
     @override
-- 
2.43.0


From 61661719c7bc0f049c063ea5c6ed8e68e49d8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 120/170] fix: global coordinates focused by beamformers

---
 hermespy/beamforming/beamformer.py | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index 0af6f71..b747dba 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -140,7 +140,7 @@ class SphericalFocus(BeamFocus):
 class CoordinateFocus(BeamFocus):
     """Focus the beamformer towards a certain Cartesian coordinate."""
 
-    __direction: Direction
+    __coordinates: np.ndarray
     __reference: Literal["global", "local"]
 
     def __init__(
@@ -149,7 +149,9 @@ class CoordinateFocus(BeamFocus):
         """
         Args:
 
-            coordinates: Cartesian coordinates in m.
+            coordinates:
+                Cartesian coordinates in m.
+                Directions are considered to be located infinitely far away.
             reference: Reference frame of the coordinates.
         """
 
@@ -157,18 +159,14 @@ class CoordinateFocus(BeamFocus):
         BeamFocus.__init__(self)
 
         # Initialize class members
-        self.__direction = (
-            coordinates
-            if isinstance(coordinates, Direction)
-            else Direction.From_Cartesian(coordinates, True)
-        )
+        self.__coordinates = coordinates
         self.__reference = reference
 
     @property
     def coordinates(self) -> np.ndarray:
         """Cartesian coordinates in m."""
 
-        return self.__direction.view(np.ndarray)
+        return self.__coordinates.view(np.ndarray)
 
     @property
     def reference(self) -> Literal["global", "local"]:
@@ -178,31 +176,40 @@ class CoordinateFocus(BeamFocus):
 
     @override
     def copy(self) -> CoordinateFocus:
-        return CoordinateFocus(self.__direction.copy(), self.__reference)
+        return CoordinateFocus(self.__coordinates.copy(), self.__reference)
 
     @override
     def spherical_angles(self, device: State) -> np.ndarray:
         if self.reference == "local":
-            return self.__direction.to_spherical()
+            is_direction = isinstance(self.__coordinates, Direction)
+            return Direction.From_Cartesian(self.__coordinates, not is_direction).to_spherical()
 
         elif self.reference == "global":
             transformation = device.antennas.backwards_transformation
-            local_direction = transformation.transform_direction(self.__direction)
-            return local_direction.to_spherical()
+
+            # Directions are independent of the focusing device's position
+            if isinstance(self.__coordinates, Direction):
+                local_coordinates = transformation.rotate_direction(self.__coordinates)
+            else:
+                local_coordinates = transformation.transform_position(self.__coordinates)
+
+            return Direction.From_Cartesian(local_coordinates, True).to_spherical()
 
         else:
             raise ValueError(f"Invalid reference frame '{self.reference}'")
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        process.serialize_array(self.__direction, "direction")
+        process.serialize_array(self.coordinates, "coordinates")
+        process.serialize_integer(int(isinstance(self.__coordinates, Direction)), "direction")
         process.serialize_string(self.__reference, "reference")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> CoordinateFocus:
+        coordinates = process.deserialize_array("coordinates", np.float64)
         return CoordinateFocus(
-            process.deserialize_array("direction", np.float64).view(Direction),
+            coordinates.view(Direction) if process.deserialize_integer("direction") else coordinates,
             process.deserialize_string("reference"),  # type: ignore[arg-type]
         )
 
-- 
2.43.0


From 45ca2b97ce7d1da3f60286f9bfd2b3afdfb42548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 121/170] fix: directions of receive sidelobe evaluations

---
 hermespy/simulation/evaluators/beamforming.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/evaluators/beamforming.py b/hermespy/simulation/evaluators/beamforming.py
index 47c3e61..46e9a32 100644
--- a/hermespy/simulation/evaluators/beamforming.py
+++ b/hermespy/simulation/evaluators/beamforming.py
@@ -229,6 +229,10 @@ class SidelobeEvaluator(Evaluator, Serializable):
 
         weights = np.concatenate([focus_beamformer, self.__codebook], axis=0)
 
+        # Receive beamformers compensate the phases of the antenna array's response
+        if self.mode is AntennaMode.RX:
+            weights = weights.conj()
+
         beamformed_energy = np.zeros(weights.shape[0], dtype=np.float64)
         signal_energy: float = 0.0
         for block in samples.blocks:
-- 
2.43.0


From 6142a4f26404ab1473652db25d9c7a33ebc6e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 122/170] fix: offsets of beamformed sparse signals

---
 hermespy/beamforming/beamformer.py | 39 +++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index b747dba..bdf5ceb 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -36,6 +36,21 @@ FT = TypeVar("FT", bound="BeamFocus")
 """Type of beam focus."""
 
 
+def _to_block(samples: np.ndarray, offset: int) -> SignalBlock:
+    """Convert beamformed samples to a signal block.
+
+    Args:
+        samples: The beamformed samples.
+        offset: Offset of the block within its signal.
+
+    Returns: The signal block.
+    """
+
+    block = samples.view(SignalBlock)
+    block.offset = offset
+    return block
+
+
 class BeamFocus(ABC, Serializable):
     """Single focus point of a beamformer."""
 
@@ -339,9 +354,15 @@ class TransmitBeamformer(TransmitStreamEncoder):
         )
         return Signal.Create(
             [
-                self._encode(
-                    block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
-                ).view(SignalBlock)
+                _to_block(
+                    self._encode(
+                        block.view(np.ndarray),
+                        device.carrier_frequency,
+                        focus_angles,
+                        device.antennas,
+                    ),
+                    block.offset,
+                )
                 for block in streams.blocks
             ],
             streams.sampling_rate,
@@ -589,9 +610,15 @@ class ReceiveBeamformer(ReceiveStreamDecoder):
         )
         return Signal.Create(
             [
-                self._decode(
-                    block.view(np.ndarray), device.carrier_frequency, focus_angles, device.antennas
-                )[0, ::].view(SignalBlock)
+                _to_block(
+                    self._decode(
+                        block.view(np.ndarray),
+                        device.carrier_frequency,
+                        focus_angles,
+                        device.antennas,
+                    )[0, ::],
+                    block.offset,
+                )
                 for block in streams.blocks
             ],
             streams.sampling_rate,
-- 
2.43.0


From 48656a2745c60f6828c90d7c2274a709d97d74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 123/170] fix: ranges estimated by FMCW radars

---
 hermespy/radar/fmcw.py | 63 +++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index 4a26a44..de06f1d 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -1,13 +1,11 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import annotations
-from fractions import Fraction
 from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light, pi
-from scipy.fft import fft2, ifftshift
-from scipy.signal import decimate, resample_poly
+from scipy.fft import fft2, fftshift
 
 from hermespy.core import ReceiveState, Signal, SerializationProcess, TransmitState
 from .radar import RadarWaveform
@@ -112,34 +110,43 @@ class FMCW(RadarWaveform):
         chirp_stack = np.reshape(input_samples, (-1, num_pulse_samples))
 
         chirp_prototype = self.__chirp_prototype(state.bandwidth, state.oversampling_factor)
-        chirp_stack = chirp_stack[:, : len(chirp_prototype)]
+        num_chirp_samples = len(chirp_prototype)
+        chirp_stack = chirp_stack[:, :num_chirp_samples]
         baseband_samples = chirp_stack.conj() * chirp_prototype
 
-        if self.adc_sampling_rate > 0 and self.adc_sampling_rate < state.sampling_rate:
-            downsampling_rate = Fraction(
-                self.adc_sampling_rate / state.sampling_rate
-            ).limit_denominator(1000)
-            baseband_samples = resample_poly(
-                baseband_samples, downsampling_rate.numerator, downsampling_rate.denominator, axis=1
-            )
-            _adc_bandwidth = self.adc_sampling_rate
-        else:
-            baseband_samples = decimate(
-                baseband_samples, state.oversampling_factor, axis=1, zero_phase=False
-            )
-            _adc_bandwidth = state.bandwidth
-
-        num_bins = int(self.max_range(_adc_bandwidth) / self.range_resolution(state.bandwidth))
-        transform = fft2(baseband_samples, (baseband_samples.shape[0], num_bins))
+        # The ADC only captures the positive beat frequencies up to its sampling rate
+        num_bins = self.__num_range_bins(state.bandwidth)
+        transform = fft2(baseband_samples)[:, :num_bins] * (num_bins / num_chirp_samples)
         # fft shift the Doppler components
-        transform = ifftshift(transform, axes=0)
+        transform = fftshift(transform, axes=0)
 
         return np.abs(transform) ** 2
 
+    def __adc_bandwidth(self, bandwidth: float) -> float:
+        """Bandwidth of the beat signal captured by the ADC.
+
+        Beat frequencies never exceed the sweep bandwidth.
+
+        Args:
+            bandwidth: Sweep bandwidth of the chirp in Hz.
+        """
+
+        if self.adc_sampling_rate <= FMCW.__DERIVE_SAMPLING_RATE:
+            return bandwidth
+        return min(self.adc_sampling_rate, bandwidth)
+
+    def __num_range_bins(self, bandwidth: float) -> int:
+        """Number of range bins resolved by the waveform.
+
+        Args:
+            bandwidth: Sweep bandwidth of the chirp in Hz.
+        """
+
+        return int(self.max_range(bandwidth) / self.range_resolution(bandwidth))
+
     @override
     def max_range(self, bandwidth: float) -> float:
-        adc_bandwidth = self.adc_sampling_rate if self.adc_sampling_rate > 0 else bandwidth
-        max_range = adc_bandwidth * speed_of_light / (2 * bandwidth / self.chirp_duration)
+        max_range = self.__adc_bandwidth(bandwidth) * speed_of_light / (2 * bandwidth / self.chirp_duration)
         return max_range
 
     @override
@@ -178,15 +185,7 @@ class FMCW(RadarWaveform):
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
-        # The actual bandwidth may be limited by the ADC assumptions
-        adc_bandwidth = (
-            bandwidth
-            if self.adc_sampling_rate <= FMCW.__DERIVE_SAMPLING_RATE
-            else self.adc_sampling_rate
-        )
-        max_range = self.max_range(adc_bandwidth)
-        num_bins = int(max_range / self.range_resolution(bandwidth))
-        return np.linspace(0, max_range, num_bins)
+        return np.arange(self.__num_range_bins(bandwidth)) * self.range_resolution(bandwidth)
 
     @property
     def num_chirps(self) -> int:
-- 
2.43.0


From 1848cf3b2c8dece0245153b3d4bb905559ce687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 124/170] fix: velocities estimated by FMCW radars

---
 hermespy/radar/fmcw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index de06f1d..a1c4088 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -170,10 +170,10 @@ class FMCW(RadarWaveform):
     @property
     @override
     def relative_doppler_bins(self) -> np.ndarray:
+        # The beat signal's phase decreases over the chirps reflected by a receding target
         return (
-            np.arange(self.num_chirps) * self.relative_doppler_resolution
-            - self.max_relative_doppler
-        )
+            self.num_chirps // 2 - np.arange(self.num_chirps)
+        ) * self.relative_doppler_resolution
 
     @override
     def frame_duration(self, bandwidth: float) -> float:
-- 
2.43.0


From 357ab8bf76bceaf31a8d42e8e3819aed8574ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 125/170] fix: number of samples within FMCW frames

---
 hermespy/radar/fmcw.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index a1c4088..c6b0072 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -181,7 +181,8 @@ class FMCW(RadarWaveform):
 
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
-        return int(self.frame_duration(bandwidth) * bandwidth * oversampling_factor)
+        sampling_rate = bandwidth * oversampling_factor
+        return self.num_chirps * int(self.pulse_rep_interval * sampling_rate)
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
@@ -272,7 +273,8 @@ class FMCW(RadarWaveform):
         self.__pulse_rep_interval = value
 
     def energy(self, bandwidth: float, oversampling_factor: int) -> float:
-        return self.num_chirps * int(self.chirp_duration * bandwidth * oversampling_factor)
+        sampling_rate = bandwidth * oversampling_factor
+        return self.num_chirps * int(self.chirp_duration * sampling_rate)
 
     @property
     def power(self) -> float:
@@ -309,8 +311,9 @@ class FMCW(RadarWaveform):
             RuntimeError: If the pulse repetition interval is smaller than the chirp duration.
         """
 
-        num_zero_samples = int(
-            (self.pulse_rep_interval - self.chirp_duration) * bandwidth * oversampling_factor
+        sampling_rate = bandwidth * oversampling_factor
+        num_zero_samples = int(self.pulse_rep_interval * sampling_rate) - int(
+            self.chirp_duration * sampling_rate
         )
 
         if num_zero_samples < 0:
-- 
2.43.0


From 29474ce4718dd1fc3ffa0b20fe8a192d7f9963ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 126/170] fix: radar cubes of single streams probing multiple
 angles

---
 hermespy/radar/radar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index e495aa5..d65ecd6 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -482,6 +482,10 @@ class RadarBase(Generic[RTT, RRT], Transmitter[RTT], Receiver[RRT]):
             else self.receive_beamformer.probe_focus_points[:, 0, :]
         )
 
+        # A single stream looks identical from all angles of interest
+        if signal.num_streams == 1:
+            beamformed_samples = np.repeat(beamformed_samples, len(angles_of_interest), axis=0)
+
         return angles_of_interest, beamformed_samples
 
     @override
-- 
2.43.0


From 6bce1268e001488649d58e4d9fe0a214789eac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 127/170] fix: angles of maximum detections

---
 hermespy/radar/detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..7370dbc 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -448,7 +448,7 @@ class MaxDetector(RadarDetector, Serializable):
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
             PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
+                angles_of_arrival[1], angles_of_arrival[0], range, velocity, point_power
             )
         )
 
-- 
2.43.0


From 84854d982bda8045240e6a86973f9450ae89df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 128/170] fix: normalization of threshold detections

---
 hermespy/radar/detection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 7370dbc..b150000 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -378,12 +378,11 @@ class ThresholdDetector(RadarDetector):
     @override
     def detect(self, cube: RadarCube) -> RadarPointCloud:
         # Extract cube data and normalize if the respective flag is enabled
-        cube_max = cube.data.max()
-        cube_data: np.ndarray = (
-            (cube.data - cube.data.min()) / cube_max
-            if self.normalize and cube_max > 0.0
-            else cube.data
-        )
+        cube_data: np.ndarray = cube.data
+        if self.normalize:
+            cube_data = cube_data - cube_data.min()
+            if cube_data.max() > 0.0:
+                cube_data = cube_data / cube_data.max()
 
         # Filter the raw cube data for peaks
         if self.peak_detection:
-- 
2.43.0


From 7e086a54a762226a63166df9f144c2735a1aa965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 129/170] fix: visualization of empty point clouds

---
 hermespy/radar/detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index b150000..8b8240a 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -263,7 +263,7 @@ class RadarPointCloud(Serializable, Visualizable[ScatterVisualization]):
 
     def _update_visualization(self, visualization: ScatterVisualization, **kwargs) -> None:
         # Collect point data
-        point_positions = np.array([point.position for point in self.points])
+        point_positions = np.array([point.position for point in self.points]).reshape((-1, 3))
 
         # Update visualization
         path = visualization.paths[0]
-- 
2.43.0


From f6b02467a23ed6798136ee2d1375264d849321ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 130/170] fix: minimum range of OFDM radars

---
 hermespy/jcas/ofdm_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..55f5a56 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -236,7 +236,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             line_estimate = self.__estimate_range(
                 transmitted_symbols, line, device.bandwidth, device.oversampling_factor
             )
-            cube_data[angle_idx, ::] = line_estimate[min_range_index:]
+            cube_data[angle_idx, ::] = line_estimate[:, min_range_index:]
 
         # Create radar cube object
         cube = RadarCube(
-- 
2.43.0


From b608e6206f4c25efcebcb1e69786de94d94a2e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 131/170] fix: velocities estimated by OFDM radars

---
 hermespy/jcas/ofdm_radar.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index 55f5a56..e78813a 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -7,7 +7,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light
-from scipy.fft import ifft, fft, ifftshift
+from scipy.fft import ifft, fft, fftshift
 
 from hermespy.beamforming import ReceiveBeamformer
 from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
@@ -142,8 +142,8 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             Maximum relative doppler shift in Hz.
         """
 
-        # The maximum velocity is the wavelength divided by four times the pulse repetition interval
-        max_doppler = 1 / (4 * self.frame_duration(bandwidth))
+        # The maximum velocity is the wavelength divided by four times the OFDM word interval
+        max_doppler = self.waveform.words_per_frame / (4 * self.frame_duration(bandwidth))
         return max_doppler
 
     def relative_doppler_resolution(self, bandwidth: float) -> float:
@@ -200,7 +200,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         )
 
         # Estimate range-power profile by equation (10)
-        power_profile = ifftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
+        power_profile = fftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
         return np.abs(power_profile)
 
     @override
@@ -219,9 +219,10 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         range_bins = np.arange(self.waveform.num_subcarriers) * self.range_resolution(
             device.bandwidth
         )
-        doppler_bins = np.arange(self.waveform.words_per_frame) * self.relative_doppler_resolution(
-            device.bandwidth
-        ) - self.max_relative_doppler(device.bandwidth)
+        num_words = self.waveform.words_per_frame
+        doppler_bins = (
+            np.arange(num_words) - num_words // 2
+        ) * self.relative_doppler_resolution(device.bandwidth)
 
         # Filter range for the minimum range
         min_range_index = ceil(self.min_range / self.range_resolution(device.bandwidth))
-- 
2.43.0


From 8dce9f1d09e259819493ca594031967c5f3140f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 132/170] fix: minimum range of matched filter radars

---
 hermespy/jcas/matched_filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index 4d245ec..da80aba 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -232,7 +232,7 @@ class MatchedFilterJcas(
         )
 
         # Filter range for the minimum range
-        min_range_bin = ceil(2 * self.min_range / resolution)
+        min_range_bin = ceil(self.min_range / resolution)
 
         # Create the cube object
         range_bins = lags[min_range_bin:num_propagated_samples] * resolution
-- 
2.43.0


From d365ab54872925e6172f6502ed8793f5097dd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 133/170] fix: matched filter radars resolving a single
 velocity

---
 hermespy/jcas/matched_filtering.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index da80aba..f3bfcfc 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -194,16 +194,13 @@ class MatchedFilterJcas(
         else:
             transmitted_samples = self.__last_transmission.signal.view(np.ndarray)[[0], :]
 
-        doppler_bins = (
-            state.carrier_frequency
-            * np.linspace(
-                -self.max_velocity,
-                self.max_velocity,
-                int(2 * self.max_velocity / self.velocity_resolution) + 1,
-                endpoint=True,
-            )
-            / speed_of_light
+        num_velocity_bins = int(2 * self.max_velocity / self.velocity_resolution) + 1
+        velocity_bins = (
+            np.linspace(-self.max_velocity, self.max_velocity, num_velocity_bins, endpoint=True)
+            if num_velocity_bins > 1
+            else np.zeros(1)
         )
+        doppler_bins = state.carrier_frequency * velocity_bins / speed_of_light
         cube_data = np.empty(
             (angle_bins.shape[0], doppler_bins.shape[0], num_propagated_samples), dtype=np.float64
         )
-- 
2.43.0


From 99a6e2e5304f6f8dee465bf6d3b2e7016cdf74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 134/170] fix: matched filter radars transmitting multiple
 streams

---
 hermespy/jcas/matched_filtering.py | 36 ++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index f3bfcfc..0a91272 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -11,6 +11,7 @@ from scipy.signal import correlate, correlation_lags
 
 from hermespy.beamforming import ReceiveBeamformer
 from hermespy.core import (
+    AntennaArrayState,
     AntennaMode,
     DeserializationProcess,
     Receiver,
@@ -52,6 +53,7 @@ class MatchedFilterJcas(
 
     # The specific required sampling rate
     __last_transmission: JCASTransmission | None = None
+    __last_transmit_antennas: AntennaArrayState | None = None
     __max_range: float  # Maximally detectable range
 
     def __init__(
@@ -121,6 +123,7 @@ class MatchedFilterJcas(
 
         # Initialize class attributes
         self.__last_transmission = None
+        self.__last_transmit_antennas = None
         self.max_range = max_range
         self.max_velocity = max_velocity
         self.velocity_resolution = velocity_resolution
@@ -140,6 +143,8 @@ class MatchedFilterJcas(
 
     @override
     def _transmit(self, state: TransmitState, duration: float) -> JCASTransmission:
+        # Cache the transmitting antennas, since receive states only describe receiving antennas
+        self.__last_transmit_antennas = state.antennas
         return JCASTransmission(TransmittingModemBase._transmit(self, state, duration))
 
     @override
@@ -175,24 +180,30 @@ class MatchedFilterJcas(
 
         # Predict the signal transmitted towards the angles of interest
         if self.__last_transmission.signal.num_streams > 1:
+            transmit_antennas = (
+                state.antennas
+                if self.__last_transmit_antennas is None
+                else self.__last_transmit_antennas
+            )
             transmitted_samples = np.empty(
                 (angle_bins.shape[0], self.__last_transmission.signal.num_samples),
                 dtype=np.complex128,
             )
             for t, angle in enumerate(angle_bins):
-                phase_response = state.antennas.horizontal_phase_response(
-                    self.__last_transmission.signal.carrier_frequency,
-                    angle[0],
-                    angle[1],
-                    AntennaMode.TX,
+                phase_response = transmit_antennas.spherical_phase_response(
+                    state.carrier_frequency, angle[0], angle[1], AntennaMode.TX
                 )
                 transmitted_samples[t, :] = (
-                    phase_response.conj() @ self.__last_transmission.signal.view(np.ndarray)
+                    phase_response @ self.__last_transmission.signal.view(np.ndarray)
                 )
 
         # For a single transmit antenna, this is not required
         else:
-            transmitted_samples = self.__last_transmission.signal.view(np.ndarray)[[0], :]
+            transmitted_samples = np.repeat(
+                self.__last_transmission.signal.view(np.ndarray)[[0], :],
+                angle_bins.shape[0],
+                axis=0,
+            )
 
         num_velocity_bins = int(2 * self.max_velocity / self.velocity_resolution) + 1
         velocity_bins = (
@@ -215,11 +226,12 @@ class MatchedFilterJcas(
                 / state.sampling_rate
             )
 
-            cube_data[:, d, :] = abs(
-                correlate(beamformed_samples, doppler_shifted_samples, mode="valid", method="fft")[
-                    :, :num_propagated_samples
-                ]
-            )
+            for a in range(angle_bins.shape[0]):
+                cube_data[a, d, :] = abs(
+                    correlate(
+                        beamformed_samples[a], doppler_shifted_samples[a], mode="valid", method="fft"
+                    )[:num_propagated_samples]
+                )
 
         # Normalize and convert to power
         cube_data = cube_data**2 / self.__last_transmission.signal.num_samples
-- 
2.43.0


From 8eb1a8354bb95e372a60f388a966b419d80e4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 135/170] fix: block errors of frames with differing numbers of
 blocks

---
 hermespy/modem/evaluators.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..a5a24fc 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 from abc import ABC, abstractmethod
+from itertools import zip_longest
 from typing_extensions import override
 
 import numpy as np
@@ -305,22 +306,24 @@ class BlockErrorEvaluator(CommunicationEvaluator, Serializable):
 
         # Compare the decoded bit streams of each communication frame partioned into blocks into blocks
         # Every block with at least one bit error is considered a block error and increases the error counter
-        num_tx_blocks = 0
-        for tx_frame in transmission.frames:
-            num_tx_blocks += tx_frame.bits.size // tx_frame.bit_block_size
-        num_rx_blocks = 0
-        for rx_frame in reception.frames:
-            num_rx_blocks += rx_frame.decoded_bits.size // rx_frame.bit_block_size
-
-        block_errors = np.ones(max(num_tx_blocks, num_rx_blocks), dtype=bool)
-        b = 0
-        for tx_frame, rx_frame in zip(transmission.frames, reception.frames):
-            tx_blocks = tx_frame.bits.reshape((-1, tx_frame.bit_block_size))
-            rx_blocks = rx_frame.decoded_bits.reshape((-1, rx_frame.bit_block_size))
-            num_blocks = max(tx_blocks.shape[0], rx_blocks.shape[0])
-
-            block_errors[b : b + num_blocks] = np.any(tx_blocks != rx_blocks, axis=1)
-            b += num_blocks
+        # Blocks missing in either transmission or reception are considered to be in error
+        block_errors = np.empty(0, dtype=bool)
+        for tx_frame, rx_frame in zip_longest(transmission.frames, reception.frames):
+            num_tx_blocks = tx_frame.bits.size // tx_frame.bit_block_size if tx_frame else 0
+            num_rx_blocks = rx_frame.decoded_bits.size // rx_frame.bit_block_size if rx_frame else 0
+            frame_errors = np.ones(max(num_tx_blocks, num_rx_blocks), dtype=bool)
+
+            if tx_frame and rx_frame and tx_frame.bit_block_size == rx_frame.bit_block_size:
+                num_blocks = min(num_tx_blocks, num_rx_blocks)
+                num_bits = num_blocks * tx_frame.bit_block_size
+                frame_errors[:num_blocks] = np.any(
+                    (tx_frame.bits[:num_bits] != rx_frame.decoded_bits[:num_bits]).reshape(
+                        (num_blocks, tx_frame.bit_block_size)
+                    ),
+                    axis=1,
+                )
+
+            block_errors = np.append(block_errors, frame_errors)
 
         return BlockErrorEvaluation(block_errors)
 
-- 
2.43.0


From 570226af6f5e85a045bd099c11870d6752e58621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 136/170] fix: errors of frames with differing numbers of bits

---
 hermespy/modem/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a5a24fc..d038b03 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -380,7 +380,7 @@ class FrameErrorEvaluator(CommunicationEvaluator, Serializable):
         # Compare the decoded bit streams of each communication frame
         # If they differ, increase the frame errror count
         for f, (tx_frame, rx_frame) in enumerate(zip(transmission.frames, reception.frames)):
-            frame_errors[f] = not np.array_equiv(tx_frame.bits, rx_frame.decoded_bits)
+            frame_errors[f] = not np.array_equal(tx_frame.bits, rx_frame.decoded_bits)
 
         return FrameErrorEvaluation(frame_errors)
 
-- 
2.43.0


From 70b8a240308bc8a907af48a35806d5b3e9d943a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 137/170] fix: signal evaluations before any signal was
 processed

---
 hermespy/core/evaluators.py                    | 2 ++
 hermespy/simulation/evaluators/interference.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..f01b996 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -408,6 +408,8 @@ class PAPR(ScalarEvaluator):
         self.__direction = direction
 
         # Register hooks
+        self.__output = None
+        self.__input = None
         if direction == AntennaMode.TX:
             self.__output_hook = device.output_callbacks.add_callback(self.__output_callback)
             self.__input_hook = None
diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index 135572e..cd8d046 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -61,6 +61,7 @@ class SI(ScalarEvaluator, Serializable):
 
         # Register input hook
         self.__device = device
+        self._input = None
         self._input_hook = device.simulated_input_callbacks.add_callback(self.__input_callback)
 
     def __input_callback(self, input: ProcessedSimulatedDeviceInput) -> None:
-- 
2.43.0


From 10910d24df40de32a4959ffaa79ead6a65cbbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 138/170] fix: plotted receiver operating characteristics

---
 hermespy/radar/evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..c34b550 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -615,8 +615,8 @@ class RocEvaluationResult(EvaluationResult[RocArtifact]):
         section_magnitudes = tuple(s.num_sample_points for s in self.grid)
         for section_indices, line in zip(np.ndindex(section_magnitudes), visualization.lines[0, 0]):
             # Select the graph line scalars
-            x_axis = probabilities[section_indices + (None, 1)]  # type: ignore[arg-type]
-            y_axis = probabilities[section_indices + (None, 0)]  # type: ignore[arg-type]
+            x_axis = probabilities[section_indices + (slice(None), 1)]  # type: ignore[arg-type]
+            y_axis = probabilities[section_indices + (slice(None), 0)]  # type: ignore[arg-type]
 
             # Update the respective line
             line.set_data(x_axis, y_axis)
-- 
2.43.0


From 5e2d3cc059e5137bc17758b4a342e4383d26838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 139/170] fix: visualization of receiver operating
 characteristic evaluations

---
 hermespy/radar/evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index c34b550..3dbb950 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -524,8 +524,8 @@ class RocEvaluation(Evaluation[PlotVisualization]):
     @override
     def _update_visualization(self, visualization: PlotVisualization, **kwargs) -> None:
         _lines = visualization.lines[0, 0]
-        _lines[0].set_ydata(self.__cube_h0.data)
-        _lines[1].set_ydata(self.__cube_h1.data)
+        _lines[0].set_ydata(np.sum(self.__cube_h0.data, axis=(0, 1)))
+        _lines[1].set_ydata(np.sum(self.__cube_h1.data, axis=(0, 1)))
 
 
 class RocEvaluationResult(EvaluationResult[RocArtifact]):
-- 
2.43.0


From fa516d19ae0c60474b24f8d671241e9a0276696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 140/170] fix: receiver operating characteristics of replayed
 scenarios

---
 hermespy/radar/evaluators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 3dbb950..026275e 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1027,11 +1027,9 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
         return result
 
     @classmethod
-- 
2.43.0


From 03b8bb8dec7de2e089278c6cb87f022556965552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 141/170] fix: number of thresholds of receiver operating
 characteristics

---
 hermespy/radar/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 026275e..d3e09b1 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -814,7 +814,7 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> RocEvaluationResult:
-        return RocEvaluationResult(grid, self)
+        return RocEvaluationResult(grid, self, self.__num_thresholds)
 
     @staticmethod
     def FromScenarios(
-- 
2.43.0


From 1cc0c9579cd4729f917988e8a91e57b374e8657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 142/170] fix: root mean square errors of posed radars

---
 hermespy/radar/evaluators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index d3e09b1..869aa7c 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1230,9 +1230,15 @@ class RootMeanSquareError(RadarEvaluator, Serializable):
         point_cloud = self._fetch_pcl()
         channel_sample = self._fetch_channel()
 
-        # Consolide the ground truth
+        # Consolide the ground truth within the receiving device's local coordinate system,
+        # which the points detected by the radar are located in
+        global_to_local = channel_sample.receiver_pose.invert()
         ground_truth = np.array(
-            [p.ground_truth[0] for p in channel_sample.paths if p.ground_truth is not None]
+            [
+                global_to_local.transform_position(p.ground_truth[0])
+                for p in channel_sample.paths
+                if p.ground_truth is not None
+            ]
         )
         return RootMeanSquareEvaluation(point_cloud, ground_truth)
 
-- 
2.43.0


From 45c639d8c83e02465732c7597a0071caee4c07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 143/170] fix: self-interference of devices without leakage

---
 hermespy/simulation/evaluators/interference.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index cd8d046..782e069 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -86,7 +86,21 @@ class SI(ScalarEvaluator, Serializable):
                 "Self-interference evaluator could not fetch input. Has the device received data?"
             )
 
-        return PowerEvaluation(self._input.leaking_signal.power)
+        return PowerEvaluation(self._leaking_power(self._input))
+
+    def _leaking_power(self, input: ProcessedSimulatedDeviceInput) -> np.ndarray:
+        """Power of the self-interference per receive channel in Watts.
+
+        Args:
+            input: Device input to be evaluated.
+
+        Returns: Vector of powers. All zeros if no signal leaked into the device's receive chain.
+        """
+
+        if input.leaking_signal is None:
+            return np.zeros(self.__device.num_receive_antennas, dtype=np.float64)
+
+        return input.leaking_signal.power
 
     def __del__(self) -> None:
         self._input_hook.remove()
@@ -126,7 +140,7 @@ class SSINR(SI):
         noise_power = self._input.noise_realization.power
 
         # Power of the self-interference
-        si_power = self._input.leaking_signal.power
+        si_power = self._leaking_power(self._input)
 
         # Power of the useful signal
         # ToDo: The definition of impinging signals is inconsistent
-- 
2.43.0


From 2a51705c0b784e4c549bd842e69f2d90b082710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 144/170] fix: serialization of temporary arrays and objects

---
 hermespy/core/factory.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..63a1117 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -840,16 +840,18 @@ class HDFSerializationProcess(SerializationProcess):
 
     __base_group: Group
     __group: Group
-    __arrays: MutableMapping[int, np.ndarray]
-    __objects: MutableMapping[int, str]  # Mapping of serialized objects to their HDF5 paths
+    __arrays: MutableMapping[int, tuple[str, np.ndarray]]
+    __objects: MutableMapping[
+        int, tuple[str, Serializable]
+    ]  # Mapping of serialized objects to their HDF5 paths
 
     def __init__(
         self,
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[str, np.ndarray]],
+        objects: MutableMapping[int, tuple[str, Serializable]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -889,17 +891,18 @@ class HDFSerializationProcess(SerializationProcess):
 
         # The arrays are assumed to be immutable during the serialization process
         # Therefore, the unique identifier is generated from the array's memory address
+        # The cache keeps a reference to each array, so that addresses are not reused
         uid: int = id(array)
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][0])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (new.name, array)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +937,17 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        obj_entry = self.__objects.get(obj_key, None)
+        if obj_entry is not None:
+            self.__group[name] = SoftLink(obj_entry[0])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        # Keeping a reference to the object prevents its identifier from being reused
+        self.__objects[obj_key] = (new_group.name, obj)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From 7f0c4c6518a1d2882ddd98f24fad813e8d24ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 145/170] fix: types of deserialized shared arrays

---
 hermespy/core/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 63a1117..fd28d6f 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1085,7 +1085,7 @@ class HDFDeserializationProcess(DeserializationProcess):
         # If the array has already been deserialized, just return a reference to it
         if isinstance(link, SoftLink):
             if link.path in self.__arrays:
-                return self.__arrays[link.path]
+                return np.asarray(self.__arrays[link.path], dtype=dtype)
             else:
                 array_dataset = self.__base_group[link.path]
         else:
-- 
2.43.0


From 7bf41ef1f72e7b93426fbcbc101433af9664e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 146/170] fix: default values of deserialized arrays and
 missing strings

---
 hermespy/core/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index fd28d6f..bb956be 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -730,7 +730,7 @@ class DeserializationProcess(ProcessBase):
             name, expected_type, UNDEF
         )
         if deserialized_object is UNDEF:
-            if default == UNDEF:
+            if default is UNDEF:
                 raise RuntimeError(
                     f"Object '{name}' does not exist and no default value was provided"
                 )
@@ -1075,7 +1075,7 @@ class HDFDeserializationProcess(DeserializationProcess):
 
         # If the array does not exist, attempt to return the default value
         if link is None:
-            if default == UNDEF:
+            if default is UNDEF:
                 raise RuntimeError(
                     f"Array '{name}' does not exist in the HDF5 file and no default value was provided"
                 )
@@ -1135,6 +1135,8 @@ class HDFDeserializationProcess(DeserializationProcess):
     @override
     def deserialize_string(self, name: str, default: _RT | UNDEF_TYPE = UNDEF) -> str | _RT:
         deserialization = self.__fetch_attribute(name, default)
+        if deserialization is None:
+            raise RuntimeError(f"Attribute '{name}' is not a string value")
         return default if deserialization is UNDEF else str(deserialization)
 
     @override
-- 
2.43.0


From 3457cbbf41dc83ee1fd237f042fd5cfc090f7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 147/170] fix: channel realizations of deserialized drops

---
 hermespy/simulation/drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
-- 
2.43.0


From 4c50cd22329c79e5ee879c3a458e1045e089041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 148/170] fix: recording of drops at specific timestamps

---
 hermespy/core/scenario.py       | 17 ++++++++++++++---
 hermespy/simulation/scenario.py |  4 +++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 45de99d..240d944 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -847,12 +847,23 @@ class Scenario(
             drop = self._drop()
 
             # Serialize the drop to HDF if in record mode
-            if self.mode == ScenarioMode.RECORD:
-                self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
-                self.__drop_counter += 1
+            self._record_drops([drop])
 
         return drop
 
+    def _record_drops(self, drops: Sequence[DropType]) -> None:
+        """Append generated drops to the current recording.
+
+        Has no effect if the scenario is not in record mode.
+
+        Args:
+            drops: The drops to be recorded.
+        """
+
+        if self.mode == ScenarioMode.RECORD:
+            self.__serialization_process.serialize_object_sequence(drops, "drops", True, True)
+            self.__drop_counter += len(drops)
+
 
 ScenarioType = TypeVar("ScenarioType", bound="Scenario")
 """Type of scenario."""
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..03395f2 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -742,7 +742,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         if timestamp is None:
             return Scenario.drop(self)
 
-        return self._drop(timestamp)
+        drop = self._drop(timestamp)
+        self._record_drops([drop])
+        return drop
 
     @overload
     def _drop(self, timestamps: float = 0.0) -> SimulatedDrop:
-- 
2.43.0


From 09f2f774af8380fcb3ec136db20c07b305068641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 149/170] fix: drops at integer timestamps

---
 hermespy/simulation/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 03395f2..b068da5 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -776,7 +776,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Generate drop timestamp
         drop_timestamp = time()
 
-        _timestamps: Sequence[float] = [timestamps] if isinstance(timestamps, float) else timestamps
+        _timestamps: Sequence[float] = [timestamps] if np.isscalar(timestamps) else timestamps
         drops: list[SimulatedDrop] = []
 
         channel_realizations = self.realize_channels()
-- 
2.43.0


From dcdaca9d1a7d8c7ead3c9c856bfd08977850e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 150/170] fix: replacement of explicitly linked default
 channels

---
 hermespy/simulation/scenario.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b068da5..4cdc034 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -347,7 +347,10 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Remove the old channel from the set of device channels and unique channel instances
         # if it is not linked to any other device
         if old_channel is not None:
-            if old_channel not in self.__links.values():
+            if (
+                old_channel is not self.__default_channel
+                and old_channel not in self.__links.values()
+            ):
                 self.__channels.remove(old_channel)
 
         # Update the set of unique channel instances
@@ -743,7 +746,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
             return Scenario.drop(self)
 
         drop = self._drop(timestamp)
-        self._record_drops([drop])
+        self._record_drops([drop] if isinstance(drop, SimulatedDrop) else drop)
         return drop
 
     @overload
-- 
2.43.0


From faed1cf303c7d8938e4e2f4a34df0e6384e580f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 151/170] fix: active channels of linked devices

---
 hermespy/simulation/scenario.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 4cdc034..fd19908 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -303,13 +303,14 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         link_entries = 0
         for linked_devices, channel in self.__links.items():
             if device in linked_devices:
+                link_entries += 1
                 if not active_only or channel.gain > 0:
                     device_channels.add(channel)
-                    link_entries += 1
 
         # Append the default channel if required
         if link_entries < self.num_devices:
-            device_channels.add(self.__default_channel)
+            if not active_only or self.__default_channel.gain > 0:
+                device_channels.add(self.__default_channel)
 
         return device_channels
 
-- 
2.43.0


From d6dc77bbb2087a0ed6f205fe11cacd01bfff87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 152/170] fix: random mother of default channels

---
 hermespy/simulation/scenario.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index fd19908..5268a02 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -221,6 +221,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
 
         # Initialize base class
         Scenario.__init__(self, *args, **kwargs)
+        self.__default_channel.scenario = self
 
         # Initialize class attributes
         self.noise_level = noise_level  # type: ignore[operator]
-- 
2.43.0


From 5ab59077bfafb57378f5b47a7cee51e618801b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 153/170] fix: number of recorded drops during replay

---
 hermespy/core/scenario.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 240d944..66ee0b6 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -777,6 +777,10 @@ class Scenario(
         if self.__mode == ScenarioMode.DEFAULT:
             return 0
 
+        # The recorded number of drops is known in advance during replay
+        if self.__mode == ScenarioMode.REPLAY and self.__deserialization_process is not None:
+            return self.__deserialization_process.sequence_length("drops")
+
         return self.__drop_counter
 
     @classmethod
-- 
2.43.0


From 425bdc24bc961f6c57f4036b39774a0bdb79a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 154/170] fix: names exported by the core module

---
 hermespy/core/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hermespy/core/__init__.py b/hermespy/core/__init__.py
index cec1def..da21254 100644
--- a/hermespy/core/__init__.py
+++ b/hermespy/core/__init__.py
@@ -125,7 +125,6 @@ __all__ = [
     "AntennaArrayState",
     "CustomAntennaArray",
     "UniformArray",
-    "SNRType",
     "PAPR",
     "ReceivePowerEvaluator",
     "PowerArtifact",
@@ -147,7 +146,6 @@ __all__ = [
     "Transformable",
     "TransformableBase",
     "Transformation",
-    "OperatorSlot",
     "MixingOperator",
     "TransmitterSlot",
     "ReceiverSlot",
@@ -231,7 +229,6 @@ __all__ = [
     "VAT",
     "Visualization",
     "VLT",
-    "Plot",
     "Visualizable",
     "VisualizableAttribute",
     "VT",
-- 
2.43.0


From 23fbc3a424ee3b749f320ec44e14fc1af7120d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 155/170] fix: frame durations of devices with radars

---
 hermespy/core/operators.py |  3 +++
 hermespy/radar/radar.py    | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..77a79d3 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -71,6 +71,9 @@ class SilentTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     def power(self) -> float:
         return 0.0
 
+    def frame_duration(self, bandwidth: float) -> float:
+        return self.num_samples / bandwidth
+
     @override
     def _transmit(self, state: TransmitState, duration: float) -> Transmission:
         # Compute the number of samples to be transmitted
diff --git a/hermespy/radar/radar.py b/hermespy/radar/radar.py
index d65ecd6..c769f5d 100644
--- a/hermespy/radar/radar.py
+++ b/hermespy/radar/radar.py
@@ -681,6 +681,18 @@ class Radar(RadarBase[RadarTransmission, RadarReception], Serializable):
 
         return self.waveform.samples_per_frame(bandwidth, oversampling_factor)
 
+    def frame_duration(self, bandwidth: float) -> float:
+        """Duration of a single radar frame in seconds.
+
+        Args:
+            bandwidth: Bandwidth of the radar waveform in Hz.
+        """
+
+        if self.waveform is None:
+            return 0.0
+
+        return self.waveform.frame_duration(bandwidth)
+
     @property
     def waveform(self) -> RadarWaveform | None:
         """Description of the waveform to be transmitted and received by this radar.
-- 
2.43.0


From f839fd2a2481171dd95957c1920dccdde0e061f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 156/170] fix: deserialization of multipath fading realizations

---
 hermespy/channel/fading/fading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 43f445c..8b6814b 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -590,7 +590,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
-- 
2.43.0


From af907a0dcac6206f0cd2035dd0122a53cfe6dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 157/170] fix: serialization of delay channel realizations

---
 hermespy/channel/__init__.py       |  9 ++++++++-
 hermespy/channel/delay/__init__.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..09dc011 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -30,7 +30,12 @@ from .cdl import (
     UrbanMicrocells,
     UrbanMicrocellsRealization,
 )
-from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay import (
+    RandomDelayChannel,
+    RandomDelayChannelRealization,
+    SpatialDelayChannel,
+    SpatialDelayChannelRealization,
+)
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -77,7 +82,9 @@ __all__ = [
     "CRT",
     "LinkState",
     "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
diff --git a/hermespy/channel/delay/__init__.py b/hermespy/channel/delay/__init__.py
index d49a64e..3677259 100644
--- a/hermespy/channel/delay/__init__.py
+++ b/hermespy/channel/delay/__init__.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
-from .random import RandomDelayChannel
-from .spatial import SpatialDelayChannel
+from .random import RandomDelayChannel, RandomDelayChannelRealization
+from .spatial import SpatialDelayChannel, SpatialDelayChannelRealization
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -13,4 +13,9 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
-__all__ = ["RandomDelayChannel", "SpatialDelayChannel"]
+__all__ = [
+    "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
+]
-- 
2.43.0


From 51c406a5b6f83bc6ccb4ada79aecd8bcd2edeab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 158/170] fix: serialization of simulated antenna weights

---
 hermespy/simulation/antennas.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index d228ba9..75baa5c 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -19,12 +19,14 @@ from hermespy.core import (
     AntennaArray,
     AntennaMode,
     CustomAntennaArray,
+    DeserializationProcess,
     Dipole,
     Executable,
     IdealAntenna,
     LinearAntenna,
     PatchAntenna,
     ReceiveState,
+    SerializationProcess,
     Signal,
     SignalBlock,
     Transformation,
@@ -137,6 +139,17 @@ class SimulatedAntenna(Antenna):
             offsets=signal.block_offsets,
         )
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        super().serialize(process)
+        process.serialize_complex(self.weight, "weight")
+
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> SimulatedAntenna:
+        antenna: SimulatedAntenna = super().Deserialize(process)  # type: ignore
+        antenna.weight = process.deserialize_complex("weight", 1.0 + 0.0j)
+        return antenna
+
 
 class SimulatedDipole(SimulatedAntenna, Dipole):
     """Model of single dipole antenna within an antenna array."""
-- 
2.43.0


From 408dc64acdd41aa4211146f5ee311e6d48245525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 159/170] fix: types of deserialized custom antenna arrays

---
 hermespy/core/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index b26492b..ba99d1e 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1487,7 +1487,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
-- 
2.43.0


From ba581545fc2aef6b8a677a0518b0dcde5acc55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 160/170] fix: serialization of antenna array states

---
 hermespy/core/antennas.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index ba99d1e..ab59404 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1240,6 +1240,19 @@ class AntennaArrayState(Sequence, AntennaArrayBase):
 
         return len(self.__antennas)
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        AntennaArrayBase.serialize(self, process)
+        process.serialize_object_sequence(self.antennas, "antennas")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> AntennaArrayState:
+        return cls(
+            process.deserialize_object_sequence("antennas", Antenna),
+            process.deserialize_array("pose", np.float64).view(Transformation),
+        )
+
 
 class AntennaArray(AntennaArrayBase, Generic[AT]):
     """Base class of a model of a set of antennas."""
-- 
2.43.0


From 681b6ed0da2d851708f82322063dd6a13b721af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 161/170] fix: serialization of beamformer focus points

---
 hermespy/beamforming/beamformer.py            | 45 +++++++++++++++++++
 hermespy/beamforming/capon.py                 |  5 ++-
 hermespy/beamforming/conventional.py          |  8 +++-
 .../beamforming/nullsteeringbeamformer.py     |  8 +++-
 4 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/hermespy/beamforming/beamformer.py b/hermespy/beamforming/beamformer.py
index bdf5ceb..5d01f4f 100644
--- a/hermespy/beamforming/beamformer.py
+++ b/hermespy/beamforming/beamformer.py
@@ -284,6 +284,26 @@ class TransmitBeamformer(TransmitStreamEncoder):
         # Save results
         self.__focus_points = _value
 
+    def _serialize_transmit_focus(self, process: SerializationProcess) -> None:
+        """Serialize the focus points assumed during transmission.
+
+        Args:
+            process: Current stage of the serialization process.
+        """
+
+        process.serialize_object_sequence(self.__focus_points, "transmit_focus")
+
+    def _deserialize_transmit_focus(self, process: DeserializationProcess) -> None:
+        """Restore the focus points assumed during transmission.
+
+        Args:
+            process: Current stage of the deserialization process.
+        """
+
+        focus_points = process.deserialize_object_sequence("transmit_focus", BeamFocus)  # type: ignore[type-abstract]
+        if len(focus_points) > 0:
+            self.transmit_focus = focus_points
+
     @override
     def encode_streams(
         self,
@@ -510,6 +530,31 @@ class ReceiveBeamformer(ReceiveStreamDecoder):
 
         self.__probe_focus_points = value
 
+    def _serialize_receive_focus(self, process: SerializationProcess) -> None:
+        """Serialize the focus points assumed during reception and probing.
+
+        Args:
+            process: Current stage of the serialization process.
+        """
+
+        process.serialize_object_sequence(self.__focus_points, "receive_focus")
+        process.serialize_array(self.__probe_focus_points, "probe_focus_points")
+
+    def _deserialize_receive_focus(self, process: DeserializationProcess) -> None:
+        """Restore the focus points assumed during reception and probing.
+
+        Args:
+            process: Current stage of the deserialization process.
+        """
+
+        focus_points = process.deserialize_object_sequence("receive_focus", BeamFocus)  # type: ignore[type-abstract]
+        if len(focus_points) > 0:
+            self.receive_focus = focus_points
+
+        probe_focus_points = process.deserialize_array("probe_focus_points", np.float64, None)
+        if probe_focus_points is not None:
+            self.probe_focus_points = probe_focus_points
+
     @abstractmethod
     def _decode(
         self,
diff --git a/hermespy/beamforming/capon.py b/hermespy/beamforming/capon.py
index 780b975..36fc542 100644
--- a/hermespy/beamforming/capon.py
+++ b/hermespy/beamforming/capon.py
@@ -101,8 +101,11 @@ class CaponBeamformer(ReceiveBeamformer):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_floating(self.loading, "loading")
+        self._serialize_receive_focus(process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CaponBeamformer:
-        return CaponBeamformer(process.deserialize_floating("loading"))
+        beamformer = cls(process.deserialize_floating("loading"))
+        beamformer._deserialize_receive_focus(process)
+        return beamformer
diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index 4b3c413..83ca486 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -119,9 +119,13 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        pass
+        self._serialize_transmit_focus(process)
+        self._serialize_receive_focus(process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> ConventionalBeamformer:
-        return ConventionalBeamformer()
+        beamformer = cls()
+        beamformer._deserialize_transmit_focus(process)
+        beamformer._deserialize_receive_focus(process)
+        return beamformer
diff --git a/hermespy/beamforming/nullsteeringbeamformer.py b/hermespy/beamforming/nullsteeringbeamformer.py
index 075ea39..8ac654e 100644
--- a/hermespy/beamforming/nullsteeringbeamformer.py
+++ b/hermespy/beamforming/nullsteeringbeamformer.py
@@ -108,9 +108,13 @@ class NullSteeringBeamformer(TransmitBeamformer, ReceiveBeamformer):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        self._serialize_transmit_focus(process)
+        self._serialize_receive_focus(process)
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> NullSteeringBeamformer:
-        return cls()
+        beamformer = cls()
+        beamformer._deserialize_transmit_focus(process)
+        beamformer._deserialize_receive_focus(process)
+        return beamformer
-- 
2.43.0


From 2132395f3a8e9d01360da24d6bd907e98f83dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 162/170] fix: serialization of the ports selected by signal
 transmitters

---
 hermespy/beamforming/operators.py |  8 ++++++--
 hermespy/core/operators.py        | 12 +++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/hermespy/beamforming/operators.py b/hermespy/beamforming/operators.py
index 72259cb..da46e8b 100644
--- a/hermespy/beamforming/operators.py
+++ b/hermespy/beamforming/operators.py
@@ -80,15 +80,19 @@ class BeamformingTransmitter(SignalTransmitter):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        SignalTransmitter.serialize(self, process)
         process.serialize_object(self.beamformer, "beamformer")
-        process.serialize_object(self.signal, "signal")
 
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> BeamformingTransmitter:
-        return BeamformingTransmitter(
+        transmitter = BeamformingTransmitter(
             process.deserialize_object("signal"), process.deserialize_object("beamformer")
         )
+        transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
+        if transmit_ports is not None:
+            transmitter.selected_transmit_ports = transmit_ports.flatten().tolist()
+        return transmitter
 
 
 class BeamformingReceiver(SignalReceiver, Serializable):
diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 77a79d3..479f796 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -157,13 +157,23 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__signal, "signal")
+        if self.selected_transmit_ports is not None:
+            process.serialize_array(
+                np.asarray(self.selected_transmit_ports, np.int64), "selected_transmit_ports"
+            )
 
     @override
     @classmethod
     def Deserialize(
         cls: Type[SignalTransmitter], process: DeserializationProcess
     ) -> SignalTransmitter:
-        return SignalTransmitter(process.deserialize_object("signal", Signal))
+        transmit_ports = process.deserialize_array("selected_transmit_ports", np.int64, None)
+        return SignalTransmitter(
+            process.deserialize_object("signal", Signal),
+            selected_transmit_ports=(
+                transmit_ports.flatten().tolist() if transmit_ports is not None else None
+            ),
+        )
 
 
 class SignalReceiver(StaticOperator, Receiver[Reception], Serializable):
-- 
2.43.0


From 715813045f6fc771725333c5706f0b0ee5cf9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 163/170] fix: serialization of encoder configurations

---
 hermespy/fec/block_interleaver.py       |  5 ++++-
 hermespy/fec/coding.py                  | 20 +++++++++++++++++++-
 hermespy/fec/cyclic_redundancy_check.py |  5 ++++-
 hermespy/fec/repetition_encoder.py      |  5 ++++-
 hermespy/fec/scrambler.py               | 15 +++++++++++----
 5 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/hermespy/fec/block_interleaver.py b/hermespy/fec/block_interleaver.py
index c3e7626..7f19ce0 100644
--- a/hermespy/fec/block_interleaver.py
+++ b/hermespy/fec/block_interleaver.py
@@ -151,6 +151,7 @@ class BlockInterleaver(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.block_size, "block_size")
         process.serialize_integer(self.interleave_blocks, "interleave_blocks")
 
@@ -160,4 +161,6 @@ class BlockInterleaver(Encoder, Serializable):
         block_size = process.deserialize_integer("block_size")
         interleave_blocks = process.deserialize_integer("interleave_blocks")
 
-        return cls(block_size, interleave_blocks)
+        encoder = cls(block_size, interleave_blocks)
+        encoder._deserialize_state(process)
+        return encoder
diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 4fb7978..9bb1571 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -79,6 +79,19 @@ class Encoder(ABC, Serializable):
     def enabled(self, value: bool) -> None:
         self.__enabled = value
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(int(self.enabled), "enabled")
+
+    def _deserialize_state(self, process: DeserializationProcess) -> None:
+        """Restore the base class state during deserialization.
+
+        Args:
+            process: Current stage of the deserialization process.
+        """
+
+        self.enabled = bool(process.deserialize_integer("enabled", 1))
+
     @abstractmethod
     def encode(self, bits: np.ndarray) -> np.ndarray:
         """Encodes a single block of bits.
@@ -474,11 +487,16 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_integer(int(self.allow_padding), "allow_padding")
+        process.serialize_integer(int(self.allow_truncating), "allow_truncating")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> EncoderManager:
-        manager = cls()
+        manager = cls(
+            bool(process.deserialize_integer("allow_padding", 1)),
+            bool(process.deserialize_integer("allow_truncating", 1)),
+        )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
         for encoder in encoders:
             manager.add_encoder(encoder)
diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 4ab0a5c..7eca078 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -104,13 +104,16 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.bit_block_size, "bit_block_size")
         process.serialize_integer(self.check_block_size, "check_block_size")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> CyclicRedundancyCheck:
-        return cls(
+        encoder = cls(
             bit_block_size=process.deserialize_integer("bit_block_size"),
             check_block_size=process.deserialize_integer("check_block_size"),
         )
+        encoder._deserialize_state(process)
+        return encoder
diff --git a/hermespy/fec/repetition_encoder.py b/hermespy/fec/repetition_encoder.py
index efc1374..c5a1433 100644
--- a/hermespy/fec/repetition_encoder.py
+++ b/hermespy/fec/repetition_encoder.py
@@ -140,6 +140,7 @@ class RepetitionEncoder(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
+        Encoder.serialize(self, process)
         process.serialize_integer(self.bit_block_size, "bit_block_size")
         process.serialize_integer(self.repetitions, "repetitions")
 
@@ -149,4 +150,6 @@ class RepetitionEncoder(Encoder, Serializable):
         bit_block_size = process.deserialize_integer("bit_block_size")
         repetitions = process.deserialize_integer("repetitions")
 
-        return cls(bit_block_size, repetitions)
+        encoder = cls(bit_block_size, repetitions)
+        encoder._deserialize_state(process)
+        return encoder
diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index e562842..8ebd4be 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -151,6 +151,7 @@ class Scrambler3GPP(Encoder, Serializable):
         # Initialize the pseudo random number generator
         seed = self.__default_seed.copy() if seed is None else seed
 
+        self.__seed = seed
         self.__transmit_rng = PseudoRandomGenerator(seed)
         self.__receive_rng = PseudoRandomGenerator(seed)
 
@@ -176,12 +177,15 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        Encoder.serialize(self, process)
+        process.serialize_array(np.asarray(self.__seed, np.int64), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        encoder = cls(process.deserialize_array("seed", np.int64, None))
+        encoder._deserialize_state(process)
+        return encoder
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -298,9 +302,12 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        Encoder.serialize(self, process)
+        process.serialize_array(np.asarray(self.seed, np.int64), "seed")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        encoder = cls(process.deserialize_array("seed", np.int64, None))
+        encoder._deserialize_state(process)
+        return encoder
-- 
2.43.0


From 46276a103177c06bad24e5cec23f2818ef9c5712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 164/170] fix: serialization of symbol mappings

---
 hermespy/modem/tools/psk_qam_mapping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/modem/tools/psk_qam_mapping.py b/hermespy/modem/tools/psk_qam_mapping.py
index 189abb0..473abd7 100644
--- a/hermespy/modem/tools/psk_qam_mapping.py
+++ b/hermespy/modem/tools/psk_qam_mapping.py
@@ -528,6 +528,8 @@ class PskQamMapping(Serializable):
         process.serialize_integer(self.modulation_order, "modulation_order")
         if self.mapping is not None:
             process.serialize_array(self.mapping, "mapping")
+        process.serialize_integer(int(self.soft_output), "soft_output")
+        process.serialize_integer(int(self.is_complex), "is_complex")
 
     @classmethod
     @override
@@ -535,4 +537,6 @@ class PskQamMapping(Serializable):
         return cls(
             process.deserialize_integer("modulation_order"),
             process.deserialize_array("mapping", np.complex128, None),
+            bool(process.deserialize_integer("soft_output", 0)),
+            bool(process.deserialize_integer("is_complex", 1)),
         )
-- 
2.43.0


From 4b4a7532ca66d2dd67cf007dfaa9ebcd67569240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 165/170] fix: serialization of pilot symbol sequences

---
 hermespy/modem/waveform.py                      | 10 ++++++++++
 hermespy/modem/waveform_single_carrier.py       | 10 ++++++++++
 hermespy/modem/waveforms/orthogonal/waveform.py | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/hermespy/modem/waveform.py b/hermespy/modem/waveform.py
index 09e9639..1fb436d 100644
--- a/hermespy/modem/waveform.py
+++ b/hermespy/modem/waveform.py
@@ -757,6 +757,16 @@ class MappedPilotSymbolSequence(CustomPilotSymbolSequence):
 
         CustomPilotSymbolSequence.__init__(self, mapping.get_mapping())
 
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> MappedPilotSymbolSequence:
+        # The mapping is fully represented by its sequence of symbols
+        sequence = cls.__new__(cls)
+        CustomPilotSymbolSequence.__init__(
+            sequence, process.deserialize_array("pilot_symbols", np.complex128)
+        )
+        return sequence
+
 
 class ConfigurablePilotWaveform(PilotCommunicationWaveform):
     pilot_symbol_sequence: PilotSymbolSequence
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index c1b1df3..345847f 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -454,6 +454,10 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         process.serialize_integer(self.num_postamble_symbols, "num_postamble_symbols")
         process.serialize_floating(self.guard_interval, "guard_interval")
         process.serialize_integer(self.pilot_rate, "pilot_rate")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
 
     @override
     @classmethod
@@ -474,6 +478,12 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         parameters["pilot_rate"] = process.deserialize_integer(
             "pilot_rate", cls.__DEFAULT_PILOT_RATE
         )
+        parameters["pilot_symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_pilot_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
         return parameters
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 46e7060..267def2 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1374,6 +1374,10 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
         process.serialize_object_sequence(self.grid_structure, "grid_structure")
         if self.pilot_section is not None:
             process.serialize_object(self.pilot_section, "pilot_section")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
 
     @classmethod
     @override
@@ -1389,6 +1393,12 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     "grid_structure", GridSection
                 ),
                 "pilot_section": process.deserialize_object("pilot_section", PilotSection, None),
+                "pilot_sequence": process.deserialize_object(
+                    "pilot_symbol_sequence", PilotSymbolSequence, None
+                ),
+                "repeat_pilot_sequence": bool(
+                    process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+                ),
             }
         )
         return params
-- 
2.43.0


From 353a9142d2d825554a86d5d922246b6c04a5c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 166/170] fix: serialization of OFDM direct current suppression

---
 hermespy/modem/waveforms/orthogonal/ofdm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7cff749..ecf3074 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -179,6 +179,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(int(self.dc_suppression), "dc_suppression")
+
+    @override
+    @classmethod
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        parameters = super()._DeserializeParameters(process)
+        parameters["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", 1))
+        return parameters
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
-- 
2.43.0


From d099395bef2926180dd0cd198dfdd932ef87e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 167/170] fix: synchronization passed to chirp FSK waveforms

---
 hermespy/modem/waveform_chirp_fsk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index e219df5..5914f19 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -85,7 +85,8 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
         PilotCommunicationWaveform.__init__(self, **kwargs)
 
         # Configure waveform paramters
-        self.synchronization = ChirpFSKSynchronization()
+        if kwargs.get("synchronization") is None:
+            self.synchronization = ChirpFSKSynchronization()
         self.chirp_duration = chirp_duration
         self.freq_difference = freq_difference
         self.num_pilot_chirps = num_pilot_chirps
-- 
2.43.0


From 38be0e03cde8d795441504febfa843edeb8a03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 168/170] fix: deserialization of the ports selected by NR
 links

---
 hermespy/modem/ieee_5gnr.py                 | 4 ++--
 hermespy/modem/waveforms/orthogonal/ofdm.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/ieee_5gnr.py b/hermespy/modem/ieee_5gnr.py
index ce081ee..a9f3a8f 100644
--- a/hermespy/modem/ieee_5gnr.py
+++ b/hermespy/modem/ieee_5gnr.py
@@ -118,10 +118,10 @@ class NRSlotLink(SimplexLink):
         return NRSlotLink(
             num_resource_blocks=slot.num_resource_blocks,
             selected_transmit_ports=(
-                selected_transmit_ports.tolist() if selected_transmit_ports else None
+                selected_transmit_ports.tolist() if selected_transmit_ports is not None else None
             ),
             selected_receive_ports=(
-                selected_receive_ports.tolist() if selected_receive_ports else None
+                selected_receive_ports.tolist() if selected_receive_ports is not None else None
             ),
             carrier_frequency=process.deserialize_floating("carrier_frequency", None),
             bits_source=process.deserialize_object("bits_source", BitsSource),
diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index ecf3074..dcebb7a 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
-- 
2.43.0


From 030de3b3edf1aee5a6f3c6567bb8a6e7ea1b8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 169/170] fix: deserialization of single target radar channel
 realizations

---
 hermespy/channel/radar/single.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index cde631b..1f32a7e 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -159,9 +159,11 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
+        elif len(target_velocity) == 3:
+            _target_velocity = target_velocity
         else:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
         return SingleTargetRadarChannelRealization(
@@ -171,7 +173,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
-- 
2.43.0


From 986ccce1919131eab3f546f7e26eeefd15dbcbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 170/170] fix: serialization of integer range values

---
 hermespy/core/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index bb956be..fc951f2 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -492,8 +492,8 @@ class SerializationProcess(ProcessBase):
             self.serialize_floating(value[1], f"{name}_max")
 
         # Serialize the scalar value
-        elif isinstance(value, (float, np.float64)):
-            self.serialize_floating(value, name)
+        elif isinstance(value, (int, float, np.integer, np.floating)):
+            self.serialize_floating(float(value), name)
 
         else:
             raise ValueError("Invalid range value type")
-- 
2.43.0

